//! A subscriber that displays everything the library traces, and drops it.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use tracing::field::{Field, Visit};
use tracing::{span, subscriber::Interest, Event, Metadata, Subscriber};

pub static ON: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicU64 = AtomicU64::new(1);

#[derive(Default)]
struct Sink(String);
impl Visit for Sink {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        self.0 += &format!("{}={v:?} ", f.name());
    }
}

struct All;
impl Subscriber for All {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        ON.load(Ordering::Relaxed)
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        a.record(&mut Sink::default());
        span::Id::from_u64(NEXT.fetch_add(1, Ordering::Relaxed))
    }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) {
        r.record(&mut Sink::default());
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut s = Sink::default();
        e.record(&mut s);
        std::hint::black_box(s.0.len());
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn install() {
    let _ = tracing::subscriber::set_global_default(All);
}
