//! The monitors, inside WebAssembly: built for wasm32 with simd128, run by
//! node (run.mjs), so that they watch the wasm32 bitboard.

use std::cell::RefCell;
use vh::check::Shared;
use vh::engine::*;
use vh::plan::*;
use vh::special::*;

thread_local! {
    static TEXT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static STATS: RefCell<(u64, u64, u64)> = const { RefCell::new((0, 0, 0)) };
    static SHARED: RefCell<Option<(u64, &'static str, Shared)>> = const { RefCell::new(None) };
}
fn say(s: String) {
    TEXT.with(|t| *t.borrow_mut() = s.into_bytes());
}

#[no_mangle]
pub extern "C" fn init() {
    std::panic::set_hook(Box::new(|i| {
        let cur = CUR.with(|c| c.try_borrow().ok().and_then(|h| h.as_ref().map(|h| h.text()))).unwrap_or_default();
        say(format!("{i} [{cur}]"));
    }));
}
#[no_mangle]
pub extern "C" fn text_ptr() -> *const u8 {
    TEXT.with(|t| t.borrow().as_ptr())
}
#[no_mangle]
pub extern "C" fn text_len() -> usize {
    TEXT.with(|t| t.borrow().len())
}
/// 1 while the library itself is running.
#[no_mangle]
pub extern "C" fn in_api() -> u32 {
    vh::real::IN_API.with(|c| c.get()) as u32
}
#[no_mangle]
pub extern "C" fn api_calls() -> u64 {
    vh::real::API_CALLS.with(|c| c.get())
}
#[no_mangle]
pub extern "C" fn stat(k: u32) -> u64 {
    STATS.with(|s| match k {
        0 => s.borrow().0,
        1 => s.borrow().1,
        _ => s.borrow().2,
    })
}
/// Digest of script i.
#[no_mangle]
pub extern "C" fn digest(seed: u64, i: u64, len: u32, tail: u32) -> u64 {
    let line = script_no(seed, i, len as usize);
    let h = parse_line(&line).unwrap();
    set_cur(&h);
    replay_digest(&h, tail as usize, |_, _, o| {
        STATS.with(|s| {
            let mut s = s.borrow_mut();
            s.0 += 1;
            s.1 += o.moves.len() as u64;
            s.2 += o.in_check as u64;
        })
    })
}
/// The observations of script i, written out.
#[no_mangle]
pub extern "C" fn dump(seed: u64, i: u64, len: u32, tail: u32) {
    let line = script_no(seed, i, len as usize);
    let h = parse_line(&line).unwrap();
    let mut out = String::new();
    replay_digest(&h, tail as usize, |i, w, o| out.push_str(&dump_line(i, w, o)));
    say(out);
}
/// Key digests of a chunk of positions.
#[no_mangle]
pub extern "C" fn key_chunk(seed: u64, chunk: u64, count: u64) -> u64 {
    vh::multi::key_chunk(seed, chunk, count)
}
/// One item of check C<prop>: 0 held, 1 violated (the text says how).
#[no_mangle]
pub extern "C" fn item(prop: u32, seed: u64, family: u32, idx: u64) -> u32 {
    let name: &'static str = NAMES[prop as usize];
    SHARED.with(|s| {
        let mut g = s.borrow_mut();
        if g.as_ref().map(|x| (x.0, x.1)) != Some((seed, name)) {
            *g = Some((seed, name, Shared::new()));
        }
        let sh = &g.as_ref().unwrap().2;
        let mut cx = Cx::new(name, seed, false);
        cx.family = family as usize;
        cx.idx = idx;
        cx.rng = item_rng(name, seed, family as usize, idx);
        match dispatch(&mut cx, sh, family as usize, idx) {
            Ok(()) => 0,
            Err(v) => {
                say(format!("{} [{}]", v.what, v.signature));
                1
            }
        }
    })
}
const NAMES: [&str; 27] = [
    "C00", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26",
];
