//! Entry points: the engine starts at the named function; natively an entry
//! replays one concrete input.

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() {
                $body
            }
        )*
        fn main() {
            let args: Vec<String> = std::env::args().collect();
            let hex = std::fs::read_to_string(&args[2]).expect("replay file");
            let hex = hex.trim();
            let bytes = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
            vpnative::init(bytes);
            $(
                if args[1] == stringify!($name) {
                    $name();
                    println!("VP-COMPLETED");
                    return;
                }
            )*
            panic!("no such entry");
        }
    };
}
