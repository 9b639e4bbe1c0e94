//! replay NAME HEX,HEX,...   runs a harness natively on concrete inputs.
//! exit 0: holds, 10: the inputs are outside of the harness's assumptions,
//! anything else: broken.
fn main() {
	#[cfg(not(kani))]
	{
		use kharness::src::{Outside, BYTES};
		let a: Vec<String> = std::env::args().collect();
		let f = kharness::all().into_iter().find(|(n, _)| *n == a[1]).expect("harness").1;
		let v: Vec<Vec<u8>> = a
			.get(2)
			.map(|s| s.as_str())
			.unwrap_or("")
			.split(',')
			.filter(|s| !s.is_empty())
			.map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect())
			.collect();
		BYTES.with(|b| *b.borrow_mut() = v);
		let r = std::panic::catch_unwind(f);
		if let Err(e) = r {
			if e.downcast_ref::<Outside>().is_some() {
				println!("outside of the assumptions");
				std::process::exit(10);
			}
			std::process::exit(1);
		}
		println!("holds");
	}
}
