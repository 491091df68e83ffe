use std::fmt;
#[derive(Debug)]
pub struct InvalidFlatbuffer;
impl fmt::Display for InvalidFlatbuffer { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid") } }
impl std::error::Error for InvalidFlatbuffer {}
pub trait Table<'a> { fn at(buffer: &'a [u8]) -> Self; }
pub fn root<'a, T: Table<'a>>(buffer: &'a [u8]) -> Result<T, InvalidFlatbuffer> { if buffer.len() < 4 { Err(InvalidFlatbuffer) } else { Ok(T::at(buffer)) } }
