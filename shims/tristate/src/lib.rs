/// Three-valued truth.
#[derive(Debug, Clone, Copy, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub enum TriState {
    No,
    Unknown,
    Yes,
}

impl From<bool> for TriState {
    fn from(b: bool) -> TriState {
        if b { TriState::Yes } else { TriState::No }
    }
}
