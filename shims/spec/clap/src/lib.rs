//! Stand-in for the parts of clap in use: positional arguments and options of a struct.
pub use spec_derive::Parser;
pub trait Parser: Sized {
	fn try_parse_words(words: stand_in::Words) -> Result<Self, String>;
	fn parse() -> Self {
		Self::parse_from(std::env::args())
	}
	fn parse_from<I: IntoIterator<Item = S>, S: Into<String>>(args: I) -> Self {
		match Self::try_parse_from(args) {
			Ok(x) => x,
			Err(e) => {
				eprintln!("error: {e}");
				std::process::exit(2)
			}
		}
	}
	fn try_parse_from<I: IntoIterator<Item = S>, S: Into<String>>(args: I) -> Result<Self, String> {
		Self::try_parse_words(stand_in::Words::new(args.into_iter().skip(1).map(Into::into).collect()))
	}
}
pub mod stand_in {
	/// What comes before `--` and what comes after it.
	pub struct Words(Vec<String>, Vec<String>);
	impl Words {
		pub fn new(mut all: Vec<String>) -> Self {
			let after = match all.iter().position(|w| w == "--") {
				Some(i) => {
					let a = all.split_off(i + 1);
					all.pop();
					a
				}
				None => vec![],
			};
			Self(all, after)
		}
		fn take_option(&mut self, long: &str, short: &str) -> Result<bool, String> {
			let is = |w: &String| (!long.is_empty() && w == long) || (!short.is_empty() && w == short);
			let n = self.0.iter().filter(|w| is(w)).count();
			self.0.retain(|w| !is(w));
			if n > 1 {
				return Err(format!("{long} given more than once"));
			}
			Ok(n == 1)
		}
		fn take_value(&mut self, long: &str, short: &str) -> Result<Option<String>, String> {
			let Some(i) = self.0.iter().position(|w| w == long || w == short || (!long.is_empty() && w.starts_with(&format!("{long}=")))) else { return Ok(None) };
			let w = self.0.remove(i);
			match w.split_once('=') {
				Some((_, v)) => Ok(Some(v.into())),
				None if i < self.0.len() => Ok(Some(self.0.remove(i))),
				None => Err(format!("{long} needs a value")),
			}
		}
		fn take_word(&mut self) -> Result<Option<String>, String> {
			if let Some(i) = self.0.iter().position(|w| w.starts_with('-') && w.len() > 1) {
				return Err(format!("unexpected argument {}", self.0[i]));
			}
			Ok(if !self.0.is_empty() {
				Some(self.0.remove(0))
			} else if !self.1.is_empty() {
				Some(self.1.remove(0))
			} else {
				None
			})
		}
		pub fn done(self) -> Result<(), String> {
			match self.0.first().or(self.1.first()) {
				Some(w) => Err(format!("unexpected argument {w}")),
				None => Ok(()),
			}
		}
	}
	pub trait Field: Sized {
		fn option(words: &mut Words, long: &str, short: &str) -> Result<Self, String>;
		fn positional(words: &mut Words) -> Result<Self, String>;
	}
	impl Field for bool {
		fn option(words: &mut Words, long: &str, short: &str) -> Result<Self, String> {
			words.take_option(long, short)
		}
		fn positional(_: &mut Words) -> Result<Self, String> {
			panic!("SHIM-UNSUPPORTED: a positional flag")
		}
	}
	impl Field for String {
		fn option(words: &mut Words, long: &str, short: &str) -> Result<Self, String> {
			words.take_value(long, short)?.ok_or(format!("{long} is required"))
		}
		fn positional(words: &mut Words) -> Result<Self, String> {
			words.take_word()?.ok_or("a required argument was not given".into())
		}
	}
	impl Field for Option<String> {
		fn option(words: &mut Words, long: &str, short: &str) -> Result<Self, String> {
			words.take_value(long, short)
		}
		fn positional(words: &mut Words) -> Result<Self, String> {
			words.take_word()
		}
	}
}
