extern const mt_t mt_c_node_t, mt_c_uni_t, mt_c_strings_t, mt_ce_d_t, mt_c_us_t, mt_c_dyn_t, mt_c_tp_t;
static const mt_t * const tptr_types[] = { &mt_c_node_t, &mt_c_us_t, &mt_c_strings_t, &mt_ce_d_t, &mt_c_uni_t, &mt_c_dyn_t, &mt_c_tp_t, NULL };
