#![no_std]
#[derive(Debug,Clone,Copy,PartialEq,Eq)] pub struct Error(core::num::NonZeroU32);
impl Error { pub const fn code(self)->core::num::NonZeroU32{self.0} pub const UNSUPPORTED:Error=Error(unsafe{core::num::NonZeroU32::new_unchecked(1)}); pub fn raw_os_error(self)->Option<i32>{None}}
impl core::fmt::Display for Error{fn fmt(&self,f:&mut core::fmt::Formatter<'_>)->core::fmt::Result{f.write_str("stub")}}
#[cfg(feature="std")] extern crate std;
#[cfg(feature="std")] impl std::error::Error for Error{}
#[cfg(feature="std")] impl From<Error> for std::io::Error{fn from(_:Error)->Self{std::io::Error::new(std::io::ErrorKind::Other,"stub")}}
pub fn getrandom(_:&mut [u8])->Result<(),Error>{Err(Error::UNSUPPORTED)}
