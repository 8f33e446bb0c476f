//! Stands in for the generator of the thread: returns the words of a script chosen by the explorer, and after
//! them a fixed sequence (so that rejection sampling ends).
use crate::{CryptoRng, Error, RngCore};
use std::cell::{Cell, RefCell};

thread_local! {
    static SCRIPT: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static USED: Cell<usize> = Cell::new(0);
}

/// Sets what the generator of this thread returns from now on.
pub fn vp_script(words: &[u64]) {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.clear();
        s.extend_from_slice(words);
    });
    USED.with(|u| u.set(0));
}

/// Words taken since the script was set.
pub fn vp_used() -> usize {
    USED.with(|u| u.get())
}

fn next() -> u64 {
    let i = USED.with(|u| u.replace(u.get() + 1));
    SCRIPT.with(|s| s.borrow().get(i).copied()).unwrap_or_else(|| {
        let mut z = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^ (z >> 27)
    })
}

/// The generator of the thread.
#[derive(Copy, Clone, Debug)]
pub struct ThreadRng(std::marker::PhantomData<*const ()>);

/// The generator of the thread.
pub fn thread_rng() -> ThreadRng {
    ThreadRng(std::marker::PhantomData)
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (next() >> 32) as u32
    }

    fn next_u64(&mut self) -> u64 {
        next()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = next().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
