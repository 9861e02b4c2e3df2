//! Lists of grid dimensions, given as (XMAX, YMAX).

/// `apply!(f(args); list...)` calls `f::<XMAX, YMAX, WORDS, SIZE>(args)` for
/// each entry, WORDS as computed by gridbool_create!.
#[macro_export]
macro_rules! each_dim {
    ($f:ident $args:tt ; $( ($x:literal, $y:literal) )*) => {
        $( $f::<$x, $y, { (($x as usize + 1) * ($y as usize + 1) + 31) / 32 }, { ($x as usize + 1) * ($y as usize + 1) }> $args; )*
    };
}

/// As each_dim, with WORDS as computed by sqrid_create!.
#[macro_export]
macro_rules! each_sdim {
    ($f:ident $args:tt ; $( ($x:literal, $y:literal) )*) => {
        $( $f::<$x, $y, { (($x as usize + 1) * ($y as usize + 1)) / 32 + 1 }, { ($x as usize + 1) * ($y as usize + 1) }> $args; )*
    };
}

/// As each_dim, for `f::<XMAX, YMAX>`.
#[macro_export]
macro_rules! each_xy {
    ($f:ident $args:tt ; $( ($x:literal, $y:literal) )*) => {
        $( $f::<$x, $y> $args; )*
    };
}

/// Every grid from 1x1 to 6x6.
#[macro_export]
macro_rules! dims_small {
    ($m:ident, $f:ident $args:tt) => {
        $crate::$m! { $f $args;
            (0, 0) (1, 0) (2, 0) (3, 0) (4, 0) (5, 0)
            (0, 1) (1, 1) (2, 1) (3, 1) (4, 1) (5, 1)
            (0, 2) (1, 2) (2, 2) (3, 2) (4, 2) (5, 2)
            (0, 3) (1, 3) (2, 3) (3, 3) (4, 3) (5, 3)
            (0, 4) (1, 4) (2, 4) (3, 4) (4, 4) (5, 4)
            (0, 5) (1, 5) (2, 5) (3, 5) (4, 5) (5, 5) }
    };
}

/// Grids around a whole number of 32-bit words, around 8-bit limits, and
/// elongated ones in both directions.
#[macro_export]
macro_rules! dims_mid {
    ($m:ident, $f:ident $args:tt) => {
        $crate::$m! { $f $args;
            (30, 0) (31, 0) (32, 0) (0, 30) (0, 31) (0, 32) (62, 0) (63, 0) (64, 0) (0, 63)
            (7, 3) (3, 7) (10, 2) (2, 10) (15, 1) (1, 15) (7, 7) (8, 6) (6, 8) (12, 4) (4, 12) (10, 5)
            (6, 6) (8, 8) (9, 9) (10, 10) (11, 9) (9, 11) (31, 2) (2, 31) (32, 3) (3, 32) (99, 2) (2, 99) (100, 1) (1, 100)
            (254, 0) (255, 0) (256, 0) (0, 254) (0, 255) (0, 256) (255, 2) (256, 2) (2, 255) (2, 256) (100, 99) (99, 100) }
    };
}

/// Large grids, up to the largest coordinate in one of the axes.
#[macro_export]
macro_rules! dims_large {
    ($m:ident, $f:ident $args:tt) => {
        $crate::$m! { $f $args;
            (255, 255) (256, 255) (255, 256) (300, 217) (1000, 3) (3, 1000)
            (32767, 0) (0, 32767) (32768, 1) (1, 32768)
            (65534, 0) (0, 65534) (65535, 0) (0, 65535) (65535, 1) (1, 65535) (65535, 2) (2, 65535) }
    };
}

/// A few squares, odd and even, of every kind.
#[macro_export]
macro_rules! dims_square {
    ($m:ident, $f:ident $args:tt) => {
        $crate::$m! { $f $args;
            (0, 0) (1, 1) (2, 2) (3, 3) (4, 4) (5, 5) (6, 6) (7, 7) (8, 8) (9, 9) (10, 10) (11, 11) (12, 12)
            (15, 15) (16, 16) (20, 20) (31, 31) (32, 32) (63, 63) (64, 64) (99, 99) (127, 127) (128, 128) }
    };
}

#[macro_export]
macro_rules! dims_square_large {
    ($m:ident, $f:ident $args:tt) => {
        $crate::$m! { $f $args; (254, 254) (255, 255) (256, 256) (299, 299) }
    };
}
