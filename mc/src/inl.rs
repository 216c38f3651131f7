//! Macro-made (compile-time) collections of fixed contents, one per implementation the macros can choose, and adapters
//! that drive any collection through the traits.

/// Adapter through the Map traits (inherent methods of some macro-made types are private).
#[macro_export]
macro_rules! map_ut_tr {
    ($name:expr, $k:ty, $v:ty, $t:ty) => {
        impl $crate::MapUT<$k, $v> for $t {
            const NAME: &'static str = $name;
            fn u_get(&self, k: &$k) -> Option<&$v> { frozen_collections::MapQuery::get(&self.0, k) }
            fn u_get_mut(&mut self, k: &$k) -> Option<&mut $v> { frozen_collections::MapQuery::get_mut(&mut self.0, k) }
            fn u_contains(&self, k: &$k) -> bool { frozen_collections::MapQuery::<$k, $v>::contains_key(&self.0, k) }
            fn u_get_kv(&self, k: &$k) -> Option<(&$k, &$v)> { frozen_collections::MapExtras::get_key_value(&self.0, k) }
            fn u_index(&self, k: &$k) -> &$v { &self.0[k] }
            fn u_len(&self) -> usize { frozen_collections::Len::len(&self.0) }
            fn u_is_empty(&self) -> bool { frozen_collections::Len::is_empty(&self.0) }
            fn u_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = (&'a $k, &'a $v)> + Clone + std::fmt::Debug where $k: std::fmt::Debug + 'a, $v: std::fmt::Debug + 'a { frozen_collections::MapIteration::iter(&self.0) }
            fn u_iter_mut<'a>(&'a mut self) -> impl ExactSizeIterator<Item = (&'a $k, &'a mut $v)> + std::fmt::Debug where $k: std::fmt::Debug + 'a, $v: std::fmt::Debug + 'a { frozen_collections::MapIteration::iter_mut(&mut self.0) }
            fn u_keys<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a $k> + Clone + std::fmt::Debug where $k: std::fmt::Debug + 'a, $v: std::fmt::Debug + 'a { frozen_collections::MapIteration::keys(&self.0) }
            fn u_values<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a $v> + Clone + std::fmt::Debug where $k: std::fmt::Debug + 'a, $v: std::fmt::Debug + 'a { frozen_collections::MapIteration::values(&self.0) }
            fn u_values_mut<'a>(&'a mut self) -> impl ExactSizeIterator<Item = &'a mut $v> + std::fmt::Debug where $k: std::fmt::Debug + 'a, $v: std::fmt::Debug + 'a { frozen_collections::MapIteration::values_mut(&mut self.0) }
            fn u_into_keys(self) -> impl ExactSizeIterator<Item = $k> { frozen_collections::MapIteration::into_keys(self.0) }
            fn u_into_values(self) -> impl ExactSizeIterator<Item = $v> { frozen_collections::MapIteration::into_values(self.0) }
            fn u_into_iter(self) -> impl ExactSizeIterator<Item = ($k, $v)> + std::fmt::Debug where $k: std::fmt::Debug, $v: std::fmt::Debug { IntoIterator::into_iter(self.0) }
            fn u_ref_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = (&'a $k, &'a $v)> + Clone + std::fmt::Debug where $k: std::fmt::Debug + 'a, $v: std::fmt::Debug + 'a { IntoIterator::into_iter(&self.0) }
            fn u_mut_ref_iter<'a>(&'a mut self) -> impl ExactSizeIterator<Item = (&'a $k, &'a mut $v)> + std::fmt::Debug where $k: std::fmt::Debug + 'a, $v: std::fmt::Debug + 'a { IntoIterator::into_iter(&mut self.0) }
            fn u_disjoint<'a, const N: usize>(&'a mut self, keys: [&$k; N]) -> [Option<&'a mut $v>; N] { frozen_collections::MapExtras::get_disjoint_mut(&mut self.0, keys) }
            unsafe fn u_disjoint_unchecked<'a, const N: usize>(&'a mut self, keys: [&$k; N]) -> [Option<&'a mut $v>; N] {
                unsafe { frozen_collections::MapExtras::get_disjoint_unchecked_mut(&mut self.0, keys) }
            }
        }
    };
}
#[macro_export]
macro_rules! set_ut_tr {
    ($name:expr, $k:ty, $t:ty) => {
        impl $crate::SetUT<$k> for $t {
            const NAME: &'static str = $name;
            fn u_get(&self, k: &$k) -> Option<&$k> { frozen_collections::SetExtras::get(&self.0, k) }
            fn u_contains(&self, k: &$k) -> bool { frozen_collections::SetQuery::contains(&self.0, k) }
            fn u_len(&self) -> usize { frozen_collections::Len::len(&self.0) }
            fn u_is_empty(&self) -> bool { frozen_collections::Len::is_empty(&self.0) }
            fn u_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a $k> + Clone + std::fmt::Debug where $k: std::fmt::Debug + 'a { frozen_collections::SetIteration::iter(&self.0) }
            fn u_ref_iter<'a>(&'a self) -> impl ExactSizeIterator<Item = &'a $k> + Clone + std::fmt::Debug where $k: std::fmt::Debug + 'a { IntoIterator::into_iter(&self.0) }
            fn u_into_iter(self) -> impl ExactSizeIterator<Item = $k> + std::fmt::Debug where $k: std::fmt::Debug { IntoIterator::into_iter(self.0) }
        }
    };
}

macro_rules! inl_map {
    ($md:ident, $mac:ident, $k:ty, { $($key:tt : $val:tt),* $(,)? }) => {
        pub mod $md {
            frozen_collections::$mac!(pub static M: T<$k, u32>, { $($key : $val),* });
            pub fn make() -> T { M.clone() }
            #[derive(Clone)]
            pub struct W(pub T);
            impl std::fmt::Debug for W {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) }
            }
            pub fn wrap() -> W { W(M.clone()) }
            crate::map_ut_tr!(concat!("inline ", stringify!($md)), $k, u32, W);
            pub fn entries() -> Vec<($k, u32)> { vec![$(($key, $val)),*] }
        }
    };
}
macro_rules! inl_set {
    ($md:ident, $mac:ident, $k:ty, { $($key:tt),* $(,)? }) => {
        pub mod $md {
            frozen_collections::$mac!(pub static S: T<$k>, { $($key),* });
            pub fn make() -> T { S.clone() }
            #[derive(Clone)]
            pub struct W(pub T);
            impl std::fmt::Debug for W {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) }
            }
            pub fn wrap() -> W { W(S.clone()) }
            crate::set_ut_tr!(concat!("inline set ", stringify!($md)), $k, W);
            pub fn entries() -> Vec<$k> { vec![$($key),*] }
        }
    };
}

pub mod maps {
    inl_map!(scan1, fz_hash_map, u32, { 7u32: 70 });
    inl_map!(scan3, fz_hash_map, u32, { 7u32: 70, 1u32: 10, 4u32: 40 });
    inl_map!(hash5, fz_hash_map, u32, { 7u32: 70, 1u32: 10, 4u32: 40, 900u32: 9, 5u32: 50 });
    inl_map!(hash8, fz_hash_map, u32, { 0u32: 1, 7u32: 70, 1u32: 10, 4u32: 40, 900u32: 9, 5u32: 50, 4294967295u32: 3, 64u32: 2 });
    inl_map!(ordscan3, fz_ordered_map, u32, { 7u32: 70, 1u32: 10, 4u32: 40 });
    inl_map!(ord4, fz_ordered_map, u32, { 7u32: 70, 1u32: 10, 4u32: 40, 2u32: 20 });
    inl_map!(ord7, fz_ordered_map, u32, { 7u32: 70, 1u32: 10, 4u32: 40, 2u32: 20, 0u32: 1, 4294967295u32: 3, 9u32: 90 });
    inl_map!(dense1, fz_scalar_map, u32, { 9u32: 90 });
    inl_map!(dense5, fz_scalar_map, u32, { 7u32: 70, 8u32: 10, 5u32: 40, 6u32: 20, 9u32: 1 });
    inl_map!(densehi, fz_scalar_map, u32, { 4294967295u32: 3, 4294967294u32: 2, 4294967293u32: 1 });
    inl_map!(sparse5, fz_scalar_map, u32, { 7u32: 70, 18u32: 10, 5u32: 40, 60u32: 20, 9u32: 1 });
    inl_map!(scalarscan, fz_scalar_map, u32, { 7u32: 70, 18u32: 10, 5u32: 40, 6000u32: 20, 9u32: 1 });
    inl_map!(scalarhash, fz_scalar_map, u32, { 7u32: 70, 18u32: 10, 5u32: 40, 6000u32: 20, 9u32: 1, 0u32: 2, 4294967295u32: 3, 77u32: 4, 1000u32: 5 });
    inl_map!(exscan3, fz_hash_map, u32, { (6u32 + 1): 70, (1u32 + 0): 10, (4u32 + 0): 40 });
    inl_map!(exord1, fz_ordered_map, u32, { (6u32 + 1): 70 });
    inl_map!(exord4, fz_ordered_map, u32, { (6u32 + 1): 70, (1u32 + 0): 10, (4u32 + 0): 40, (2u32 + 0): 20 });
    inl_map!(exord7, fz_ordered_map, u32, { (6u32 + 1): 70, (1u32 + 0): 10, (4u32 + 0): 40, (2u32 + 0): 20, (u32::MAX - 0): 5, (0u32 + 0): 6, (77u32 + 0): 7 });
    inl_map!(exscal, fz_scalar_map, u32, { (6u32 + 1): 70, (1u32 + 0): 10, (4u32 + 0): 40, (2u32 + 0): 20, (u32::MAX - 0): 5 });
    inl_map!(exhash5, fz_hash_map, u32, { (6u32 + 1): 70, (1u32 + 0): 10, (4u32 + 0): 40, (2u32 + 0): 20, (u32::MAX - 0): 5 });
    inl_map!(strscan, fz_string_map, &'static str, { "a": 1, "bb": 2, "": 3 });
    inl_map!(strleft, fz_string_map, &'static str, { "axx": 1, "bxx": 2, "cxx": 3, "dxx": 4, "exx": 5 });
    inl_map!(strright, fz_string_map, &'static str, { "xa": 1, "xxb": 2, "xxxc": 3, "xxd": 4, "xe": 5 });
    inl_map!(strlen, fz_string_map, &'static str, { "a": 1, "aa": 2, "aaa": 3, "aaaa": 4 });
    inl_map!(strgen, fz_string_map, &'static str, { "ab": 1, "ba": 2, "aa": 3, "bb": 4, "abba": 5, "baab": 6 });
}
pub mod sets {
    inl_set!(scan1, fz_hash_set, u32, { 1u32 });
    inl_set!(scan3, fz_hash_set, u32, { 2u32, 0u32, 3u32 });
    inl_set!(hash4, fz_hash_set, u32, { 2u32, 0u32, 3u32, 4u32 });
    inl_set!(ordscan2, fz_ordered_set, u32, { 3u32, 1u32 });
    inl_set!(ord4, fz_ordered_set, u32, { 4u32, 1u32, 3u32, 0u32 });
    inl_set!(dense3, fz_scalar_set, u32, { 2u32, 1u32, 3u32 });
    inl_set!(dense5, fz_scalar_set, u32, { 4u32, 3u32, 2u32, 1u32, 0u32 });
    inl_set!(sparse3, fz_scalar_set, u32, { 4u32, 0u32, 1u32 });
    inl_set!(scalarscan, fz_scalar_set, u32, { 4u32, 0u32, 5000u32 });
    inl_set!(scalarhash, fz_scalar_set, u32, { 4u32, 0u32, 5000u32, 900u32, 70000u32, 1u32, 7u32, 4294967295u32, 2u32, 100u32 });
    inl_set!(exscan3, fz_hash_set, u32, { (2u32 + 1), (1u32 + 0), (4u32 + 0) });
    inl_set!(exord1, fz_ordered_set, u32, { (2u32 + 1) });
    inl_set!(exord4, fz_ordered_set, u32, { (2u32 + 1), (1u32 + 0), (4u32 + 0), (2u32 + 0) });
    inl_set!(exord6, fz_ordered_set, u32, { (2u32 + 1), (1u32 + 0), (4u32 + 0), (2u32 + 0), (u32::MAX - 0), (0u32 + 0) });
    inl_set!(exscal, fz_scalar_set, u32, { (2u32 + 1), (1u32 + 0), (4u32 + 0), (u32::MAX - 0) });
    inl_set!(exhash5, fz_hash_set, u32, { (2u32 + 1), (1u32 + 0), (4u32 + 0), (2u32 + 0), (u32::MAX - 0) });
    inl_set!(strscan, fz_string_set, &'static str, { "a", "bb", "" });
    inl_set!(strleft, fz_string_set, &'static str, { "axx", "bxx", "cxx", "dxx" });
    inl_set!(strright, fz_string_set, &'static str, { "xa", "xxb", "xxxc", "xxd" });
    inl_set!(strlen, fz_string_set, &'static str, { "a", "aa", "aaa", "aaaa" });
    inl_set!(strgen, fz_string_set, &'static str, { "ab", "ba", "aa", "bb", "abba" });
}

/// invoke `$cb!(name, module, key type)` for every macro-made u32-keyed map
#[macro_export]
macro_rules! each_inl_int_map {
    ($cb:ident) => {
        $cb!("inline scan1", scan1); $cb!("inline scan3", scan3); $cb!("inline hash5", hash5); $cb!("inline hash8", hash8);
        $cb!("inline ordered scan", ordscan3); $cb!("inline ordered4", ord4); $cb!("inline ordered7", ord7);
        $cb!("inline dense1", dense1); $cb!("inline dense5", dense5); $cb!("inline dense high", densehi);
        $cb!("inline sparse5", sparse5); $cb!("inline scalar scan", scalarscan); $cb!("inline scalar hash", scalarhash);
        $cb!("inline expr scan", exscan3); $cb!("inline expr ordered1", exord1); $cb!("inline expr ordered4", exord4);
        $cb!("inline expr ordered7", exord7); $cb!("inline expr scalar", exscal);
    };
}
#[macro_export]
macro_rules! each_inl_str_map {
    ($cb:ident) => {
        $cb!("inline str scan", strscan); $cb!("inline str left", strleft); $cb!("inline str right", strright);
        $cb!("inline str len", strlen); $cb!("inline str general", strgen);
    };
}
#[macro_export]
macro_rules! each_inl_int_set {
    ($cb:ident) => {
        $cb!("inline set scan1", scan1); $cb!("inline set scan3", scan3); $cb!("inline set hash4", hash4);
        $cb!("inline set ordered scan", ordscan2); $cb!("inline set ordered4", ord4);
        $cb!("inline set dense3", dense3); $cb!("inline set dense5", dense5); $cb!("inline set sparse3", sparse3);
        $cb!("inline set scalar scan", scalarscan); $cb!("inline set scalar hash", scalarhash);
        $cb!("inline set expr scan", exscan3); $cb!("inline set expr ordered1", exord1); $cb!("inline set expr ordered4", exord4);
        $cb!("inline set expr ordered6", exord6); $cb!("inline set expr scalar", exscal);
    };
}
#[macro_export]
macro_rules! each_inl_str_set {
    ($cb:ident) => {
        $cb!("inline set str scan", strscan); $cb!("inline set str left", strleft); $cb!("inline set str right", strright);
        $cb!("inline set str len", strlen); $cb!("inline set str general", strgen);
    };
}

/// type names, used to demonstrate which implementations the fixed collections reach
pub fn reached() -> Vec<(&'static str, String)> {
    let mut v = vec![];
    macro_rules! m { ($n:expr, $md:ident) => { v.push(($n, std::any::type_name::<maps::$md::T>().to_string())); } }
    macro_rules! s { ($n:expr, $md:ident) => { v.push(($n, std::any::type_name::<sets::$md::T>().to_string())); } }
    each_inl_int_map!(m);
    each_inl_str_map!(m);
    each_inl_int_set!(s);
    each_inl_str_set!(s);
    v
}
