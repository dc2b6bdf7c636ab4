//! Stand-in for the crate of this name
#[macro_export]
macro_rules! pkg_version_major { () => { 0 }; }
#[macro_export]
macro_rules! pkg_version_minor { () => { 0 }; }
