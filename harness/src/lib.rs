//! Property-based checks of bvh_anim.

pub mod alloc;
pub mod common;
#[macro_use]
pub mod engine;
pub mod model;
pub mod props;

/// The repository under test.
pub const REPO: &str = "/repo";

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Calls a generic function for the property with some ID.
#[macro_export]
macro_rules! with_prop {
    ($id:expr, $f:ident ( $($a:expr),* )) => {{
        use $crate::props::*;
        match $id {
            "C01" => $f::<load::C01>($($a),*),
            "C02" => $f::<load::C02>($($a),*),
            "C03" => $f::<load::C03>($($a),*),
            "C04" => $f::<load::C04>($($a),*),
            "C05" => $f::<load::C05>($($a),*),
            "C06" => $f::<load::C06>($($a),*),
            "C07" => $f::<reject::C07>($($a),*),
            "C08" => $f::<deliver::C08>($($a),*),
            "C09" => $f::<write::C09>($($a),*),
            "C10" => $f::<write::C10>($($a),*),
            "C11" => $f::<write::C11>($($a),*),
            "C12" => $f::<cursor::C12>($($a),*),
            "C13" => $f::<frames::C13>($($a),*),
            "C14" => $f::<frames::C14>($($a),*),
            "C15" => $f::<joints::C15>($($a),*),
            "C16" => $f::<channels::C16>($($a),*),
            "C17" => $f::<literal::C17>($($a),*),
            "C18" => $f::<value::C18>($($a),*),
            "C19" => $f::<life::C19>($($a),*),
            "C20" => $f::<threads::C20>($($a),*),
            "C21" => $f::<callers::C21>($($a),*),
            "C22" => $f::<equal::C22>($($a),*),
            "C23" => $f::<memory::C23>($($a),*),
            "C24" => $f::<pace::C24>($($a),*),
            "C25" => $f::<errors::C25>($($a),*),
            other => {
                eprintln!("no property {}", other);
                std::process::exit(2)
            }
        }
    }};
}
