//! Model checking of ikal: exhaustive exploration of bounded spaces of documents, values, operations
//! and time zones on the real library, judged by an independent reference model.

pub mod cal;
pub mod checks;
pub mod cli;
pub mod docs;
pub mod engine;
pub mod meter;
pub mod model;
pub mod obs;

#[global_allocator]
static METER: meter::Meter = meter::Meter;
