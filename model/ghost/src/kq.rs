//! Ghost state of kqueue and event ports.
#[derive(Clone, Copy)]
pub struct Kq {
    pub x: u32,
}
pub const KQ0: Kq = Kq { x: 0 };
