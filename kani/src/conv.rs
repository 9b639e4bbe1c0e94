//! C16: numeric conversions and the numeric abstraction.
use crate::src::*;
use crate::{harnesses, reach};
use annealers::variable::{ConvertForce, ConvertFrom, ConvertTo, ConvertWith, Real};

/// Equal, not-a-number included.
trait Same {
	fn same(self, o: Self) -> bool;
}
macro_rules! same_int {
	($($t:ty)*) => {$(impl Same for $t { fn same(self, o: Self) -> bool { self == o } })*};
}
macro_rules! same_float {
	($($t:ty)*) => {$(impl Same for $t { fn same(self, o: Self) -> bool { self == o || (self.is_nan() && o.is_nan()) } })*};
}
same_int!(i8 i16 i32 i64 i128);
same_float!(f32 f64);

/// Widening by every route gives the primitive cast.
macro_rules! widen {
	($($a:ty => $b:ty),*) => {{$(
		let x: $a = any();
		let want = x as $b;
		assert!(<$b as ConvertFrom<$a>>::convert_from(x).same(want), "convert_from");
		assert!(ConvertTo::<$b>::convert_to(x).same(want), "convert_to");
		assert!(ConvertForce::<$b>::convert_force(x).same(want), "convert_force");
		// the common type of both
		let y: $b = any();
		let l: $b = <$a as ConvertWith<$b>>::convert_lhs(x);
		let r: $b = <$a as ConvertWith<$b>>::convert_rhs(y);
		assert!(l.same(want) && r.same(y), "convert_lhs, convert_rhs");
		let l: $b = <$b as ConvertWith<$a>>::convert_lhs(y);
		let r: $b = <$b as ConvertWith<$a>>::convert_rhs(x);
		assert!(l.same(y) && r.same(want), "convert_lhs, convert_rhs, other order");
		reach!("end");
	)*}};
}
/// An integer widened to an integer keeps its value.
macro_rules! keeps {
	($($a:ty => $b:ty),*) => {{$(
		let x: $a = any();
		let y: $b = ConvertTo::<$b>::convert_to(x);
		assert!(x as i128 == y as i128, "value kept");
		let z: $a = ConvertForce::<$a>::convert_force(y);
		assert!(z == x, "there and back");
	)*}};
}
/// Exact in floating point.
macro_rules! keeps_float {
	($($a:ty => $b:ty),*) => {{$(
		let x: $a = any();
		let y: $b = ConvertTo::<$b>::convert_to(x);
		let z: $a = ConvertForce::<$a>::convert_force(y);
		assert!(z.same(x), "there and back");
	)*}};
}
/// Forced conversion to a narrower type is the primitive cast.
macro_rules! narrow {
	($($a:ty => $b:ty),*) => {{$(
		let x: $a = any();
		assert!(ConvertForce::<$b>::convert_force(x).same(x as $b), "convert_force");
	)*}};
}
macro_rules! identity {
	($($a:ty),*) => {{$(
		let (x, y): ($a, $a) = (any(), any());
		assert!(<$a as ConvertFrom<$a>>::convert_from(x).same(x), "convert_from");
		assert!(ConvertTo::<$a>::convert_to(x).same(x), "convert_to");
		assert!(ConvertForce::<$a>::convert_force(x).same(x), "convert_force");
		let l: $a = <$a as ConvertWith<$a>>::convert_lhs(x);
		let r: $a = <$a as ConvertWith<$a>>::convert_rhs(y);
		assert!(l.same(x) && r.same(y), "convert_lhs, convert_rhs");
	)*}};
}
macro_rules! int_ops {
	($($t:ty),*) => {{$(
		let (x, y): ($t, $t) = (any(), any());
		assert!(<$t as Real>::zero() == 0 && <$t as Real>::one() == 1, "zero and one");
		assert!(<$t as Real>::MAX == <$t>::MAX && <$t as Real>::MIN == <$t>::MIN, "extremes");
		let (mn, mx) = (Real::min(x, y), Real::max(x, y));
		assert!(mn <= x && mn <= y && (mn == x || mn == y), "minimum");
		assert!(mx >= x && mx >= y && (mx == x || mx == y), "maximum");
		assert!(Real::is_finite(x), "finite");
		assert!(<$t as Real>::nan_or(x) == x, "no NaN");
		if x != <$t>::MIN {
			let a = Real::abs(x);
			assert!(a >= 0 && (a == x || a == -x), "absolute value");
		}
		assert!(Real::as_f64(&x) == x as f64, "as_f64");
		let i: i32 = any();
		assert!(<$t as Real>::from_i32(i) == i as $t, "from_i32");
		let f: f64 = any();
		assert!(<$t as Real>::from_f64(f) == f as $t, "from_f64");
		reach!("end");
	)*}};
}
macro_rules! float_ops {
	($($t:ty),*) => {{$(
		let (x, y): ($t, $t) = (any(), any());
		assert!(<$t as Real>::zero() == 0.0 && <$t as Real>::one() == 1.0, "zero and one");
		assert!(<$t as Real>::MAX == <$t>::MAX && <$t as Real>::MIN == <$t>::MIN, "extremes");
		let (mn, mx) = (Real::min(x, y), Real::max(x, y));
		if x.is_nan() {
			assert!(mn.same(y) && mx.same(y), "minimum and maximum of a NaN");
		} else if y.is_nan() {
			assert!(mn == x && mx == x, "minimum and maximum with a NaN");
		} else {
			assert!(mn <= x && mn <= y && (mn == x || mn == y), "minimum");
			assert!(mx >= x && mx >= y && (mx == x || mx == y), "maximum");
		}
		let fin = !x.is_nan() && x <= <$t>::MAX && x >= <$t>::MIN;
		assert!(Real::is_finite(x) == fin, "finite");
		assert!(<$t as Real>::nan_or(x).is_nan(), "NaN");
		let a = Real::abs(x);
		assert!(a.same(if x < 0.0 { -x } else { x }) && a.is_sign_positive() || x.is_nan(), "absolute value");
		assert!(Real::as_f64(&x).same(x as f64), "as_f64");
		let i: i32 = any();
		assert!(<$t as Real>::from_i32(i) == i as $t, "from_i32");
		let f: f64 = any();
		assert!(<$t as Real>::from_f64(f).same(f as $t), "from_f64");
		reach!(x.is_nan(), "NaN");
		reach!(!fin && !x.is_nan(), "infinity");
	)*}};
}

harnesses! {
	fn c16_widen_i8(4) { widen!(i8 => i16, i8 => i32, i8 => i64, i8 => i128) }
	fn c16_widen_i16(4) { widen!(i16 => i32, i16 => i64, i16 => i128) }
	fn c16_widen_i32(4) { widen!(i32 => i64, i32 => i128, i64 => i128) }
	fn c16_widen_f32(4) { widen!(i8 => f32, i16 => f32, i32 => f32, i64 => f32) }
	fn c16_widen_f64(4) { widen!(i8 => f64, i16 => f64, i32 => f64, i64 => f64) }
	fn c16_widen_big(4) { widen!(i128 => f32, i128 => f64) }
	fn c16_widen_float(4) { widen!(f32 => f64) }
	fn c16_keeps_i8(4) { keeps!(i8 => i16, i8 => i32, i8 => i64, i8 => i128) }
	fn c16_keeps_i16(4) { keeps!(i16 => i32, i16 => i64, i16 => i128) }
	fn c16_keeps_i32(4) { keeps!(i32 => i64, i32 => i128, i64 => i128) }
	fn c16_keeps_float(4) { keeps_float!(i8 => f32, i16 => f32, i8 => f64, i16 => f64, i32 => f64, f32 => f64) }
	fn c16_narrow_int(4) { narrow!(i16 => i8, i32 => i8, i32 => i16, i64 => i8, i64 => i16, i64 => i32, i128 => i8, i128 => i16, i128 => i32, i128 => i64) }
	fn c16_narrow_f32(4) { narrow!(f32 => i8, f32 => i16, f32 => i32, f32 => i64, f32 => i128) }
	fn c16_narrow_f64(4) { narrow!(f64 => i8, f64 => i16, f64 => i32, f64 => i64, f64 => i128, f64 => f32) }
	fn c16_identity(4) { identity!(i8, i16, i32, i64, i128, f32, f64) }
	fn c16_ops_i8(4) { int_ops!(i8, i16) }
	fn c16_ops_i32(4) { int_ops!(i32, i64) }
	fn c16_ops_i128(4) { int_ops!(i128) }
	fn c16_ops_float(4) { float_ops!(f32, f64) }
}
