/* Nothing: the utilities are called directly. */
int ecv_util_shim;
