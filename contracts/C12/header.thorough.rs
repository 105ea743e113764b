inter_contract!(h_inter_frame_resilient, false, true);
