use crate::ctx::Ctx;

type Check = fn(&Ctx);

/// Each module is a cargo feature, so that a check can still be built alone if the code under test no
/// longer fits another one.
macro_rules! checks {
    ($($module:ident $feature:literal: $($id:literal $function:ident),*;)*) => {
        $(
            #[cfg(feature = $feature)]
            mod $module;
        )*

        pub fn find(id: &str) -> Option<Check> {
            $(
                #[cfg(feature = $feature)]
                match id {
                    $($id => return Some($module::$function),)*
                    _ => (),
                }
            )*
            None
        }
    };
}

checks! {
    turns "turns": "C01" c01, "C02" c02, "C03" c03, "C04" c04;
    held "held": "C05" c05, "C06" c06;
    notation "notation": "C07" c07, "C08" c08;
    sequences "sequences": "C09" c09, "C10" c10, "C11" c11, "C12" c12;
    assembly "assembly": "C13" c13, "C14" c14, "C23" c23;
    cache "cache": "C15" c15, "C16" c16, "C17" c17;
    solve "solve": "C18" c18, "C19" c19, "C20" c20;
    view "view": "C21" c21, "C26" c26, "C31" c31;
    moves "moves": "C22" c22, "C24" c24, "C35" c35;
    geometry "geometry": "C25" c25;
    values "values": "C27" c27, "C28" c28, "C29" c29, "C30" c30, "C32" c32;
    own "own": "C33" c33, "C34" c34;
    large "large": "C36" c36;
}

/// Helper processes that some checks start
pub fn child(id: &str, args: &[String]) -> Option<i32> {
    #[cfg(feature = "cache")]
    if id == "cache-child" {
        return Some(cache::child(args));
    }
    let _ = (id, args);
    None
}
