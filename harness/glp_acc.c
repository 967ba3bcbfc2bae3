// access to the permutation tables of an initialised codec instance
#include "dtrm_glp/dtrm_glp_main.c"
int *h_px(void *c) { return ((cdc_inst_type *)c)->dc.pxarr; }
int *h_py(void *c) { return ((cdc_inst_type *)c)->dc.pyarr; }
int h_pnum(void *c) { return ((cdc_inst_type *)c)->dc.p_num; }
