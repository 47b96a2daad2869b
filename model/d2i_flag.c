int vp_d2i_oct_fails;
