/* Flat C interface between the C++ simulator and the real library, so that the
 * option tables are built by the library's own macros and structures. */
#ifndef BRIDGE_H
#define BRIDGE_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { T_INT, T_STR, T_FLOAT, T_BOOL, T_FLAG, T_ASTR, T_AINT, T_AFLOAT, T_MSTR, T_MINT, T_MFLOAT,
       T_MBOOL, T_VSTR, T_VINT, T_VFLOAT, T_CUSTOM, T_COUNT };
enum { K_OPT, K_POS, K_GRP, K_SUB, K_END };
enum { V_RANGE_, V_LEN_, V_COUNT_, V_REGEX_, V_CSTR_, V_CINT_, V_CFLOAT_, V_CUSTOM_ };

/* flags of the scenario, mapped to the library's own */
enum { BF_REQUIRED = 1, BF_HIDDEN = 2, BF_ADVANCED = 4, BF_DEPRECATED = 8, BF_EXPERIMENTAL = 16, BF_EXIT = 32,
       BF_ENVOVR = 64, BF_AUTOENV = 128, BF_NOPREFIX = 256, BF_SORTED = 512, BF_UNIQUE = 1024,
       BF_SORTVAL = 2048, BF_SORTKEY = 4096, BF_UNIQVAL = 8192, BF_EXCLUSIVE = 16384 };

/* status codes, as the library numbers them */
extern const int BR_OK, BR_E_NO_COMMAND, BR_E_INVALID_HANDLER, BR_E_NO_VALUE, BR_E_INVALID_TYPE,
    BR_E_INVALID_INDEX, BR_E_INVALID_KEY, BR_E_MEMORY, BR_E_STACK_OVERFLOW, BR_E_AMBIGUOUS,
    BR_E_INVALID_ARGUMENT, BR_E_MISSING_VALUE, BR_E_MISSING_REQUIRED, BR_E_CONFLICT, BR_E_EXCLUSIVE,
    BR_E_INVALID_FORMAT, BR_E_INVALID_CHOICE, BR_E_INVALID_RANGE, BR_E_INVALID_VALUE,
    BR_MAX_DEPTH;

typedef struct {
    int         kind;
    int64_t     a, b;
    int         n;
    char      **strs;
    int64_t    *ints;
    double     *floats;
    const char *re, *hint;
    uintptr_t   data;    /* custom data */
    int         post;
} br_vspec;

typedef struct {
    int          kind, type, dbg;
    int          std_help, std_version; /* HELP_OPTION()/VERSION_OPTION() */
    char         sname;
    const char  *lname, *name, *help, *hint, *env;
    int          has_flags, flags;
    int          has_def;
    int64_t      def_i;
    double       def_f;
    const char  *def_s;
    void       **validators;
    const char **conflict, **require;
    void        *handler, *free_handler, *action;
    int          free_mode; /* 0 as the macro sets it, 1 custom, 2 none */
    void        *sub;
    char        *name_buf; /* two bytes, for a name made of the short option */
} br_ospec;

typedef struct {
    int64_t     i64;
    int         i;
    double      f;
    int         b;
    const char *s;
    void       *p;
} br_val;

size_t br_option_size(void);
size_t br_ctx_size(void);
size_t br_ventry_size(void);
void   br_build_option(void *slot, const br_ospec *s);
void   br_build_validator(void *slot, const br_vspec *s);
void   br_validators_copy(void *slot, void *out);
int    br_declared_equal(const void *a, const void *b);
void   br_opt_copy(void *dst, const void *src);
int    br_ventry_equal(const void *a, const void *b);

void br_init(void *ctx, void *options, const char *prog, const char *ver, int dbg);
void br_ctx_config(void *ctx, const char *desc, const char *prefix, const size_t cfg[4], int spaces);
int  br_ctx_error(void *ctx);
void   br_ctx_set_error(void *ctx, int code);
size_t br_ctx_depth(void *ctx);
const void *br_ctx_stack(void *ctx, size_t i);

int    br_parse(void *ctx, int argc, char **argv);
void   br_free(void *ctx);
void   br_help(void *ctx);
void   br_usage(void *ctx);
void   br_version(void *ctx);
int    br_exec(void *ctx, void *data);
int    br_has_command(void *ctx);
int    br_is_set(void *ctx, const char *path);
br_val br_get(void *ctx, const char *path);
size_t br_count(void *ctx, const char *path);
br_val br_array_get(void *ctx, const char *path, size_t i);
br_val br_map_get(void *ctx, const char *path, const char *key);
size_t br_it_size(void);
void   br_array_it(void *ctx, const char *path, void *it);
int    br_array_next(void *it, br_val *v);
void   br_array_reset(void *it);
void   br_map_it(void *ctx, const char *path, void *it);
int    br_map_next(void *it, const char **key, br_val *v);
void   br_map_reset(void *it);
br_val br_raw_array(void *p, size_t i);
br_val br_raw_map(void *p, size_t i, const char **key);

/* for callbacks */
int    simcb_validator(uintptr_t data, void *ctx, void *value); /* the simulator's */
void   br_print(int out, const char *text);
int    br_builtin_handler(int kind, int type, void *ctx, void *opt, char *value);
void   br_opt_set_ptr(void *opt, void *p);
void  *br_opt_ptr(void *opt);
int    br_opt_allocated(void *opt);
void   br_opt_set_allocated(void *opt, int on);
br_val br_opt_value(void *opt);
size_t br_opt_count(void *opt);
int    br_error(void *ctx, int code, const char *what); /* report like a user callback does */

#ifdef __cplusplus
}
#endif
#endif
