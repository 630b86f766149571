//! An application's tracing subscriber: formats every event and span, and throws the text away.
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use tracing::field::{Field, Visit};
use tracing::span;
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

struct Text(String);
impl Visit for Text {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self.0, "{}={v:?} ", f.name());
    }
}
struct Sub(AtomicU64);
impl Subscriber for Sub {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::always()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        a.record(&mut Text(String::new()));
        span::Id::from_u64(self.0.fetch_add(1, Ordering::Relaxed) + 1)
    }
    fn record(&self, _: &span::Id, v: &span::Record<'_>) {
        v.record(&mut Text(String::new()));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        e.record(&mut Text(String::new()));
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
pub fn install() {
    let _ = tracing::subscriber::set_global_default(Sub(AtomicU64::new(0)));
}
