
quantize_contract!(h_quantize_any_16, i16, 32767, TX_4X4, DCT_DCT, 0, 16, 2, 20, any_ctx(0, any(), any()));
quantize_contract!(h_quantize_any_32, i32, 524287, TX_4X4, V_DCT, 0, 16, 2, 20, any_ctx(0, any(), any()));
