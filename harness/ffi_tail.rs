
/// What the harness reaches.
pub mod verif {
    pub use crate::event::{CedEvent, MenuItem, MenuIterator, StatusItem, StatusIterator, ViewItem, ViewIterator, ViewLens, ViewLensIterator, ViewLensLineIterator};
    pub use crate::connection::{ced_connection_create, ced_connection_next_event, CedConnection};
    pub use crate::ffi::*;
    pub use crate::text::{CedTextItem, CedTextIterator};

    pub fn set_error(message: String) {
        crate::set_last_error(message);
    }

    /// What is left of an iterator over lines, which the interface has no function for.
    pub fn lines(it: &ViewLensLineIterator) -> &[remote::protocol::Text] {
        &it.items[it.next_idx..]
    }
}
