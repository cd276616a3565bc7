//! The same checks where pointers have 32 bits: compiled to WebAssembly, and run by run.mjs.
use std::cell::RefCell;
use verif_model::engine::{bare, Prop};

thread_local! {
    static INPUT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static OUTPUT: RefCell<String> = const { RefCell::new(String::new()) };
    static PROPS: RefCell<Option<&'static [Prop]>> = const { RefCell::new(None) };
}

#[no_mangle]
pub extern "C" fn w_input(len: usize) -> *mut u8 {
    INPUT.with(|i| {
        *i.borrow_mut() = vec![0; len];
        i.borrow_mut().as_mut_ptr()
    })
}
/// Do what the input says, giving back the length of the output.
#[no_mangle]
pub extern "C" fn w_run() -> usize {
    let props = PROPS.with(|p| {
        *p.borrow_mut().get_or_insert_with(|| {
            verif_model::engine::install_panic_hook();
            Box::leak(verif_tgt::props::all().into_boxed_slice())
        })
    });
    let cmd = INPUT.with(|i| String::from_utf8(i.take()).unwrap());
    let out = bare::command(props, &cmd);
    OUTPUT.with(|o| {
        *o.borrow_mut() = out;
        o.borrow().len()
    })
}
#[no_mangle]
pub extern "C" fn w_output() -> *const u8 {
    OUTPUT.with(|o| o.borrow().as_ptr())
}
#[no_mangle]
pub extern "C" fn w_log() -> *const u64 {
    bare::log().0
}
#[no_mangle]
pub extern "C" fn w_log_len() -> usize {
    bare::log().1
}
