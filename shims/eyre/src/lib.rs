//! Stand-in for `eyre`.
use std::{error::Error, fmt};
pub struct Report(Box<dyn Error + Send + Sync>);
pub type Result<T, E = Report> = std::result::Result<T, E>;
impl<E: Error + Send + Sync + 'static> From<E> for Report {
    fn from(e: E) -> Self {
        Report(Box::new(e))
    }
}
impl Report {
    pub fn msg(m: impl fmt::Display) -> Self {
        Report(m.to_string().into())
    }
}
impl fmt::Debug for Report {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for Report {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub trait WrapErr<T> {
    fn wrap_err<D: fmt::Display>(self, m: D) -> Result<T>;
}
impl<T, E: Error + Send + Sync + 'static> WrapErr<T> for std::result::Result<T, E> {
    fn wrap_err<D: fmt::Display>(self, m: D) -> Result<T> {
        self.map_err(|e| Report::msg(format!("{m}: {e}")))
    }
}
#[macro_export]
macro_rules! eyre { ($($t:tt)*) => { $crate::Report::msg(format!($($t)*)) } }
#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return Err($crate::eyre!($($t)*)) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { $crate::bail!($($t)*) } } }
