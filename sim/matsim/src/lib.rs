pub mod cursor;
pub mod elem;
pub mod gen_;
pub mod model;
pub mod ops;

pub use simrt::{self, *};

pub mod runner {
    pub use simrt::runner::{FORCE_FAULT, Prop, Tier};

    pub fn main(props: &[Prop]) {
        let _ = simrt::runner::RESET.set(|| {
            crate::elem::reset();
            rayon_core::sim::configure(rayon_core::sim::Mode::Off, 4);
        });
        simrt::runner::main(props)
    }
}
