#include "pbt.h"
#include "vf_dict_data.h"      /* generated per run: integer literals of the code under test */
const u64* const vf_dict = vf_dict_data;
const int vf_dict_n = (int) (sizeof(vf_dict_data) / sizeof(vf_dict_data[0]));
