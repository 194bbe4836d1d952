//! Only there to have the crate under test built as a library; the generated programs are compiled against it.
