//! Stand-in of `ctrlc`: keeps the handler, the explorer of the `crossterm` stand-in calls it.
use std::fmt;
use std::sync::Mutex;

type Handler = Box<dyn FnMut() + Send>;
static HANDLER: Mutex<Option<Handler>> = Mutex::new(None);

#[derive(Debug)]
pub enum Error {
    NoSuchSignal(i32),
    MultipleHandlers,
    System(std::io::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}

pub fn set_handler<F: FnMut() + 'static + Send>(f: F) -> Result<(), Error> {
    *HANDLER.lock().unwrap() = Some(Box::new(f));
    Ok(())
}

pub fn try_set_handler<F: FnMut() + 'static + Send>(f: F) -> Result<(), Error> {
    let mut h = HANDLER.lock().unwrap();
    if h.is_some() {
        return Err(Error::MultipleHandlers);
    }
    *h = Some(Box::new(f));
    Ok(())
}

/// Called by the explorer.
#[no_mangle]
pub extern "C" fn vp_ctrlc() {
    if let Some(h) = HANDLER.lock().unwrap().as_mut() {
        h();
    }
}
