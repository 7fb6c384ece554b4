//! Symbolic inputs.
//!
//! Under Kani, `any` is an unconstrained symbolic value. Natively the same
//! harness pops the concrete values of a recorded trace, so that a
//! counterexample (or a reachability witness) of the solver runs against the
//! really compiled code.

#[cfg(kani)]
mod imp {
	pub trait Sym: kani::Arbitrary {}
	impl<T: kani::Arbitrary> Sym for T {}

	#[inline(always)]
	pub fn any<T: Sym>() -> T {
		kani::any()
	}

	#[inline(always)]
	pub fn assume(cond: bool) {
		kani::assume(cond);
	}

	/// Runs `f`, which may panic; the panic ends the path.
	///
	/// Harnesses that use this are named `*_mp`; the runner then tolerates
	/// panics raised outside of the harness sources.
	#[inline(always)]
	pub fn may_panic<R>(f: impl FnOnce() -> R) -> Option<R> {
		Some(f())
	}
}

#[cfg(not(kani))]
mod imp {
	use std::cell::RefCell;
	use std::collections::VecDeque;

	thread_local! {
		pub static TRACE: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) };
		pub static COVERS: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) };
	}

	pub fn load(trace: Vec<Vec<u8>>) {
		TRACE.with(|t| *t.borrow_mut() = trace.into());
	}

	pub fn covered(what: &'static str) {
		COVERS.with(|c| c.borrow_mut().push(what));
	}

	pub struct Diverged(pub &'static str);

	fn pop(n: usize) -> Vec<u8> {
		let v = TRACE.with(|t| t.borrow_mut().pop_front());
		match v {
			Some(v) if v.len() == n => v,
			Some(_) => std::panic::panic_any(Diverged("the trace does not match the native run")),
			None => std::panic::panic_any(Diverged("the trace ends here")),
		}
	}

	pub trait Sym {
		fn sym() -> Self;
	}

	macro_rules! num {
		($($t:ty),*) => { $(
			impl Sym for $t {
				fn sym() -> Self {
					<$t>::from_le_bytes(pop(size_of::<$t>()).try_into().unwrap())
				}
			}
		)* };
	}

	num!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);

	impl Sym for bool {
		fn sym() -> Self {
			u8::sym() != 0
		}
	}

	impl Sym for char {
		fn sym() -> Self {
			char::from_u32(u32::sym()).expect("trace holds an invalid char")
		}
	}

	impl<T: Sym, const N: usize> Sym for [T; N] {
		fn sym() -> Self {
			std::array::from_fn(|_| T::sym())
		}
	}

	pub fn any<T: Sym>() -> T {
		T::sym()
	}

	pub fn assume(cond: bool) {
		if !cond {
			std::panic::panic_any(Diverged("an assumption does not hold in the native run"));
		}
	}

	pub fn may_panic<R>(f: impl FnOnce() -> R) -> Option<R> {
		match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
			Ok(r) => Some(r),
			Err(e) if e.is::<Diverged>() => std::panic::resume_unwind(e),
			Err(_) => None,
		}
	}
}

pub use imp::*;

/// Property assertion; decided by the solver.
#[macro_export]
macro_rules! check {
	($cond:expr, $msg:literal) => {
		assert!($cond, $msg)
	};
}

/// Reachability witness; guards against vacuous harnesses.
#[macro_export]
macro_rules! cover {
	($cond:expr, $msg:literal) => {{
		#[cfg(kani)]
		kani::cover!($cond, $msg);
		#[cfg(not(kani))]
		if $cond {
			$crate::sym::covered($msg);
		}
	}};
}

/// `f` must panic. Used in harnesses named `*_pn`.
#[macro_export]
macro_rules! must_panic {
	($f:expr, $msg:literal) => {{
		if $crate::sym::may_panic($f).is_some() {
			panic!($msg);
		}
	}};
}

/// Declares the harnesses of a module.
///
/// `name(q, t)`: loops are unrolled `q` times (quick) or `t` times (thorough),
/// with unwinding assertions.
#[macro_export]
macro_rules! harnesses {
	($($(#[doc = $doc:literal])+ $(@$stub:ident)? fn $name:ident($q:literal, $t:literal) $body:block)*) => {
		$(
			$crate::harness! { $(@$stub)? $name $q $t $body }
		)*

		#[cfg(not(kani))]
		pub const REGISTRY: &[$crate::Entry] = &[
			$($crate::Entry {
				name: concat!(module_path!(), "::", stringify!($name)),
				doc: concat!($($doc),+),
				unwind: ($q, $t),
				run: $name,
			},)*
		];
	};
}

/// One harness; `@real`: without models of the standard library; `@ascii`: on
/// text that is ASCII.
#[macro_export]
macro_rules! harness {
	(@real $name:ident $q:literal $t:literal $body:block) => {
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(all(kani, not(feature = "thorough")), kani::unwind($q))]
		#[cfg_attr(all(kani, feature = "thorough"), kani::unwind($t))]
		pub fn $name() $body
	};
	(@ascii $name:ident $q:literal $t:literal $body:block) => {
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(all(kani, not(feature = "thorough")), kani::unwind($q))]
		#[cfg_attr(all(kani, feature = "thorough"), kani::unwind($t))]
		#[cfg_attr(kani, kani::stub(core::str::validations::run_utf8_validation, crate::stubs::ascii))]
		#[cfg_attr(kani, kani::stub(core::slice::ascii::is_ascii, crate::stubs::is_ascii))]
		pub fn $name() $body
	};
	($name:ident $q:literal $t:literal $body:block) => {
		#[cfg_attr(kani, kani::proof)]
		#[cfg_attr(all(kani, not(feature = "thorough")), kani::unwind($q))]
		#[cfg_attr(all(kani, feature = "thorough"), kani::unwind($t))]
		#[cfg_attr(kani, kani::stub(core::str::validations::run_utf8_validation, crate::stubs::run_utf8_validation))]
		#[cfg_attr(kani, kani::stub(core::slice::ascii::is_ascii, crate::stubs::is_ascii))]
		pub fn $name() $body
	};
}
