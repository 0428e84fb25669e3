pub mod verif {
    use super::*;
    pub const FLUSH: u32 = NUM_SYMBOLS_BEFORE_FLUSH;
    pub const NORM: u64 = NORMALIZATION_INTERVAL;
    pub const START: u64 = ENC_START_STATE;
    pub const MASK: u64 = SCALE_MASK;
    impl ANSDecoder {
        pub fn v_set(a: u64, b: u64, sym_count: u16, ra: u8, rb: u8) -> Self {
            ANSDecoder { state_a: a, state_b: b, sym_count: sym_count, buffer_a_bytes_required: ra, buffer_b_bytes_required: rb }
        }
        pub fn v_get(&self) -> (u64, u64, u16, u8, u8) {
            (self.state_a, self.state_b, self.sym_count, self.buffer_a_bytes_required, self.buffer_b_bytes_required)
        }
        pub fn v_offset(&mut self) -> i16 { self.helper_get_cdf_value_of_sym() }
        pub fn v_advance(&mut self, start: i16, freq: i16) { self.helper_advance_sym(start, freq) }
    }
    impl<A: Allocator<u8>> ANSEncoder<A> {
        pub fn v_put(&mut self, start: i16, freq: i16) { self.put_start_freq(start, freq) }
    }
}
