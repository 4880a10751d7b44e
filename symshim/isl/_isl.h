// Stand-in for isl (submodule absent): declarations of what docc calls; see symshim/isl.cpp for the model.
#pragma once
#include <stddef.h>
extern "C" {
typedef struct isl_ctx isl_ctx; typedef struct isl_map isl_map; typedef struct isl_set isl_set; typedef struct isl_space isl_space;
typedef int isl_bool_t; typedef enum { isl_bool_error = -1, isl_bool_false = 0, isl_bool_true = 1 } isl_bool; typedef int isl_stat; typedef int isl_size;
enum isl_dim_type { isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_set = isl_dim_out, isl_dim_div, isl_dim_all };
#define ISL_ON_ERROR_WARN 0
#define ISL_ON_ERROR_CONTINUE 1
#define ISL_ON_ERROR_ABORT 2
isl_ctx* isl_ctx_alloc(void); void isl_ctx_free(isl_ctx*); isl_stat isl_options_set_on_error(isl_ctx*, int);
isl_map* isl_map_read_from_str(isl_ctx*, const char*); isl_map* isl_map_free(isl_map*); isl_map* isl_map_copy(isl_map*); isl_space* isl_map_get_space(isl_map*);
isl_space* isl_space_params(isl_space*); isl_space* isl_space_copy(isl_space*); isl_space* isl_space_free(isl_space*); isl_space* isl_space_align_params(isl_space*, isl_space*);
isl_map* isl_map_align_params(isl_map*, isl_space*); isl_size isl_map_dim(isl_map*, enum isl_dim_type); isl_map* isl_map_project_out(isl_map*, enum isl_dim_type, unsigned, unsigned);
isl_set* isl_map_range(isl_map*); isl_set* isl_map_domain(isl_map*); isl_set* isl_set_free(isl_set*); isl_bool isl_set_is_subset(isl_set*, isl_set*); isl_bool isl_set_is_disjoint(isl_set*, isl_set*); isl_bool isl_set_is_empty(isl_set*);
isl_map* isl_map_apply_domain(isl_map*, isl_map*); isl_map* isl_map_intersect(isl_map*, isl_map*); isl_bool isl_map_is_empty(isl_map*); isl_map* isl_map_set_dim_name(isl_map*, enum isl_dim_type, unsigned, const char*);
}
