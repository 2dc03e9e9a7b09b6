/// Relative row of a query.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rotation(pub i32);
impl Rotation {
    pub fn cur() -> Rotation {
        Rotation(0)
    }
    pub fn prev() -> Rotation {
        Rotation(-1)
    }
    pub fn next() -> Rotation {
        Rotation(1)
    }
}
