//! Stand-in for console-subscriber in the conformance harness: the harness never runs the
//! client's `main`, which is the only place that starts the console, so the real crate (and its
//! tonic/axum/prost tree, a third of a cold build) is replaced by an empty layer.
pub struct ConsoleLayer;

impl<S: tracing_core::Subscriber> tracing_subscriber::Layer<S> for ConsoleLayer {}

pub fn spawn() -> ConsoleLayer {
    ConsoleLayer
}
