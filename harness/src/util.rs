use std::cell::RefCell;
use std::path::PathBuf;

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

thread_local! {
    static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Remembers the input about to be given to the code under test, so that a panic can name it.
pub fn current_input(s: &str) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(s);
    });
}

pub fn take_current_input() -> String {
    CURRENT.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// Removes the file, if it is there, when dropped
pub struct RemoveFile(pub std::path::PathBuf);

impl Drop for RemoveFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
