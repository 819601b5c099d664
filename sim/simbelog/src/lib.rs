//! Stand-in for the log sink: the harness installs its own.
pub fn init() {}
