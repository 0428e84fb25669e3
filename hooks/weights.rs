pub mod verif {
    use super::*;
    impl Weights {
        pub fn v_from(w: [i32; 2]) -> Self { let mut x = Weights::new(); x.model_weights = w; x }
        pub fn v_weights(&self) -> [i32; 2] { self.model_weights }
    }
}
