//! Where a harness takes its inputs from: arbitrary values under Kani, the
//! bytes of a counterexample in a native replay.

#[cfg(kani)]
mod imp {
	pub trait Prim: kani::Arbitrary {}
	impl<T: kani::Arbitrary> Prim for T {}
	pub fn any<T: Prim>() -> T {
		kani::any()
	}
	pub fn assume(b: bool) {
		kani::assume(b)
	}
}

#[cfg(not(kani))]
mod imp {
	use std::cell::RefCell;
	thread_local! { pub static BYTES: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) }; }
	pub struct Outside;
	pub trait Prim: Copy {
		fn read(b: &[u8]) -> Self;
	}
	macro_rules! prim {
		($($t:ty),*) => {$(impl Prim for $t {
			fn read(b: &[u8]) -> Self {
				let mut a = [0u8; std::mem::size_of::<$t>()];
				let n = a.len().min(b.len());
				a[..n].copy_from_slice(&b[..n]);
				<$t>::from_le_bytes(a)
			}
		})*};
	}
	prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
	impl Prim for bool {
		fn read(b: &[u8]) -> Self {
			b.first().copied().unwrap_or(0) != 0
		}
	}
	pub fn any<T: Prim>() -> T {
		let v = BYTES.with(|b| {
			let mut b = b.borrow_mut();
			if b.is_empty() {
				vec![]
			} else {
				b.remove(0)
			}
		});
		T::read(&v)
	}
	pub fn assume(b: bool) {
		if !b {
			std::panic::panic_any(Outside)
		}
	}
}
pub use imp::*;

/// An arbitrary value in 0..=max.
pub fn upto(max: usize) -> usize {
	let x: u8 = any();
	assume(x as usize <= max);
	x as usize
}
/// An arbitrary value in -max..=max.
pub fn small(max: i8) -> i8 {
	let x: i8 = any();
	assume(x >= -max && x <= max);
	x
}

/// The situation is reachable (vacuity guard).
#[cfg(kani)]
#[macro_export]
macro_rules! reach {
	($s:literal) => {
		kani::cover!(true, $s)
	};
	($c:expr, $s:literal) => {
		kani::cover!($c, $s)
	};
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! reach {
	($s:literal) => {
		$crate::src::reached($s)
	};
	($c:expr, $s:literal) => {
		if $c {
			$crate::src::reached($s)
		}
	};
}
pub fn reached(_s: &str) {}

/// The call never returns normally.
#[cfg(kani)]
#[macro_export]
macro_rules! must_panic {
	($e:expr) => {{
		let _r = $e;
		kani::cover!(true, "MUSTNOT: returned instead of refusing");
	}};
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! must_panic {
	($e:expr) => {{
		if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
			let _r = $e;
		}))
		.is_ok()
		{
			panic!("returned instead of refusing");
		}
	}};
}

#[macro_export]
macro_rules! harnesses {
	($( $(#[$m:meta])* fn $name:ident ( $u:literal ) $body:block )*) => {
		$(
			#[cfg_attr(kani, kani::proof)]
			#[cfg_attr(kani, kani::unwind($u))]
			$(#[$m])*
			pub fn $name() $body
		)*
		#[cfg(not(kani))]
		pub fn list() -> Vec<(&'static str, fn())> {
			vec![$((stringify!($name), $name as fn())),*]
		}
	};
}
