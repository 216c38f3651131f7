fn main(){ for (a,b) in mc::inl::reached(){ println!("{a}: {b}"); } }
