#include "argus.h"
#include "argus/errors.h"
#include "argus/options.h"
#include "argus/regex.h"
#include "argus/types.h"
#include "bridge.h"
#include <stdlib.h>
#include <string.h>

const int BR_OK = ARGUS_SUCCESS, BR_E_NO_COMMAND = ARGUS_ERROR_NO_COMMAND,
          BR_E_INVALID_HANDLER = ARGUS_ERROR_INVALID_HANDLER, BR_E_NO_VALUE = ARGUS_ERROR_NO_VALUE,
          BR_E_INVALID_TYPE = ARGUS_ERROR_INVALID_TYPE, BR_E_INVALID_INDEX = ARGUS_ERROR_INVALID_INDEX,
          BR_E_INVALID_KEY = ARGUS_ERROR_INVALID_KEY, BR_E_MEMORY = ARGUS_ERROR_MEMORY,
          BR_E_STACK_OVERFLOW = ARGUS_ERROR_STACK_OVERFLOW, BR_E_AMBIGUOUS = ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND,
          BR_E_INVALID_ARGUMENT = ARGUS_ERROR_INVALID_ARGUMENT, BR_E_MISSING_VALUE = ARGUS_ERROR_MISSING_VALUE,
          BR_E_MISSING_REQUIRED = ARGUS_ERROR_MISSING_REQUIRED, BR_E_CONFLICT = ARGUS_ERROR_CONFLICTING_OPTIONS,
          BR_E_EXCLUSIVE = ARGUS_ERROR_EXCLUSIVE_GROUP, BR_E_INVALID_FORMAT = ARGUS_ERROR_INVALID_FORMAT,
          BR_E_INVALID_CHOICE = ARGUS_ERROR_INVALID_CHOICE, BR_E_INVALID_RANGE = ARGUS_ERROR_INVALID_RANGE,
          BR_E_INVALID_VALUE = ARGUS_ERROR_INVALID_VALUE, BR_MAX_DEPTH = MAX_SUBCOMMAND_DEPTH;

size_t br_option_size(void) { return sizeof(argus_option_t); }
size_t br_ctx_size(void) { return sizeof(argus_t); }
size_t br_ventry_size(void) { return sizeof(validator_entry_t); }

static int map_flags(int f)
{
    static const int m[] = {FLAG_REQUIRED, FLAG_HIDDEN, FLAG_ADVANCED, FLAG_DEPRECATED, FLAG_EXPERIMENTAL,
                            FLAG_EXIT, FLAG_ENV_OVERRIDE, FLAG_AUTO_ENV, FLAG_NO_ENV_PREFIX, FLAG_SORTED,
                            FLAG_UNIQUE, FLAG_SORTED_VALUE, FLAG_SORTED_KEY, FLAG_UNIQUE_VALUE, FLAG_EXCLUSIVE};
    int r = 0;
    for (size_t i = 0; i < sizeof(m) / sizeof(*m); i++)
        if (f & (1 << i))
            r |= m[i];
    return r;
}

/* The table macros, with and without the debug information of a debug build */
#define BUILDERS(SUFFIX)                                                                                     \
    static argus_option_t mk_##SUFFIX(const br_ospec *s)                                                     \
    {                                                                                                        \
        char        sn = s->sname;                                                                           \
        const char *ln = s->lname, *n = s->name;                                                             \
        if (s->kind == K_GRP)                                                                                \
            return (argus_option_t)GROUP_START(n);                                                           \
        if (s->kind == K_END)                                                                                \
            return (argus_option_t)OPTION_END();                                                             \
        if (s->kind == K_SUB)                                                                                \
            return (argus_option_t)SUBCOMMAND(n, (argus_option_t *)s->sub, HELP(s->help));                   \
        if (s->std_help)                                                                                     \
            return (argus_option_t)HELP_OPTION();                                                            \
        if (s->std_version)                                                                                  \
            return (argus_option_t)VERSION_OPTION();                                                         \
        if (s->kind == K_POS)                                                                                \
            switch (s->type) {                                                                               \
                case T_INT: return (argus_option_t)POSITIONAL_INT(n, HELP(s->help));                         \
                case T_FLOAT: return (argus_option_t)POSITIONAL_FLOAT(n, HELP(s->help));                     \
                case T_BOOL: return (argus_option_t)POSITIONAL_BOOL(n, HELP(s->help));                       \
                case T_VSTR: return (argus_option_t)POSITIONAL_MANY_STRING(n, HELP(s->help));                \
                case T_VINT: return (argus_option_t)POSITIONAL_MANY_INT(n, HELP(s->help));                   \
                case T_VFLOAT: return (argus_option_t)POSITIONAL_MANY_FLOAT(n, HELP(s->help));               \
                case T_CUSTOM:                                                                               \
                    return (argus_option_t)POSITIONAL_BASE(n, VALUE_TYPE_CUSTOM, HELP(s->help));             \
                default: return (argus_option_t)POSITIONAL_STRING(n, HELP(s->help));                         \
            }                                                                                                \
        switch (s->type) {                                                                                   \
            case T_INT: return (argus_option_t)OPTION_INT(sn, ln, HELP(s->help));                            \
            case T_FLOAT: return (argus_option_t)OPTION_FLOAT(sn, ln, HELP(s->help));                        \
            case T_BOOL: return (argus_option_t)OPTION_BOOL(sn, ln, HELP(s->help));                          \
            case T_FLAG: return (argus_option_t)OPTION_FLAG(sn, ln, HELP(s->help));                          \
            case T_ASTR: return (argus_option_t)OPTION_ARRAY_STRING(sn, ln, HELP(s->help));                  \
            case T_AINT: return (argus_option_t)OPTION_ARRAY_INT(sn, ln, HELP(s->help));                     \
            case T_AFLOAT: return (argus_option_t)OPTION_ARRAY_FLOAT(sn, ln, HELP(s->help));                 \
            case T_MSTR: return (argus_option_t)OPTION_MAP_STRING(sn, ln, HELP(s->help));                    \
            case T_MINT: return (argus_option_t)OPTION_MAP_INT(sn, ln, HELP(s->help));                       \
            case T_MFLOAT: return (argus_option_t)OPTION_MAP_FLOAT(sn, ln, HELP(s->help));                   \
            case T_MBOOL: return (argus_option_t)OPTION_MAP_BOOL(sn, ln, HELP(s->help));                     \
            case T_CUSTOM: return (argus_option_t)OPTION_BASE(sn, ln, VALUE_TYPE_CUSTOM, HELP(s->help));     \
            default: return (argus_option_t)OPTION_STRING(sn, ln, HELP(s->help));                            \
        }                                                                                                    \
    }

#pragma GCC diagnostic ignored "-Woverride-init"
#undef ARGUS_DEBUG_INFO
#define ARGUS_DEBUG_INFO .line = 0, .file = NULL
BUILDERS(plain)
#undef ARGUS_DEBUG_INFO
#define ARGUS_DEBUG_INFO .line = __LINE__, .file = "table.c"
BUILDERS(debug)

void br_build_option(void *slot, const br_ospec *s)
{
    argus_option_t o = s->dbg ? mk_debug(s) : mk_plain(s);
    if ((s->kind == K_OPT || s->std_help || s->std_version) && s->lname == NULL && !s->std_help &&
        !s->std_version) {
        s->name_buf[0] = s->sname;
        s->name_buf[1] = 0;
        o.name         = s->name_buf;
    }
    if (s->has_flags)
        o.flags = map_flags(s->flags);
    if (s->hint)
        o.hint = s->hint;
    if (s->env)
        o.env_name = (char *)s->env;
    if (s->validators)
        o.validators = (validator_entry_t **)s->validators;
    if (s->conflict)
        o.conflict = s->conflict;
    if (s->require)
        o.require = s->require;
    if (s->handler)
        o.handler = (argus_handler_t)s->handler;
    if (s->free_mode == 1)
        o.free_handler = (argus_free_handler_t)s->free_handler;
    else if (s->free_mode == 2)
        o.free_handler = NULL;
    if (s->action)
        o.action = (argus_action_t)s->action;
    if (s->has_def) {
        argus_option_t d;
        switch (s->type) {
            case T_STR: d = (argus_option_t){DEFAULT(s->def_s)}; break;
            case T_FLOAT: d = (argus_option_t){DEFAULT(s->def_f)}; break;
            case T_BOOL: d = (argus_option_t){DEFAULT(s->def_i != 0)}; break;
            default: d = (argus_option_t){DEFAULT(s->def_i)}; break;
        }
        o.value = d.value, o.default_value = d.default_value;
        o.is_set = d.is_set, o.have_default = d.have_default;
    }
    memcpy(slot, &o, sizeof(o));
}

static int tramp_validator(argus_t *argus, void *value, validator_data_t data)
{
    return simcb_validator(data.custom, argus, value);
}

void br_build_validator(void *slot, const br_vspec *s)
{
    validator_entry_t e = {0};
    char **st = s->strs; int64_t *it = s->ints; double *fl = s->floats;
    switch (s->kind) {
        case V_RANGE_: e = *V_RANGE(s->a, s->b); break;
        case V_LEN_: e = *V_LENGTH(s->a, s->b); break;
        case V_COUNT_: e = *V_COUNT(s->a, s->b); break;
        case V_REGEX_: e = *V_REGEX(((regex_data_t){.pattern = s->re, .hint = s->hint})); break;
        case V_CSTR_:
            switch (s->n) {
                case 1: e = *V_CHOICE_STR(st[0]); break;
                case 2: e = *V_CHOICE_STR(st[0], st[1]); break;
                default: e = *V_CHOICE_STR(st[0], st[1], st[2]); e.data.choices.count = (size_t)s->n; break;
            }
            e.data.choices.as_strings = st;
            break;
        case V_CINT_:
            switch (s->n) {
                case 1: e = *V_CHOICE_INT(it[0]); break;
                case 2: e = *V_CHOICE_INT(it[0], it[1]); break;
                default: e = *V_CHOICE_INT(it[0], it[1], it[2]); e.data.choices.count = (size_t)s->n; break;
            }
            e.data.choices.as_ints = it;
            break;
        case V_CFLOAT_:
            switch (s->n) {
                case 1: e = *V_CHOICE_FLOAT(fl[0]); break;
                case 2: e = *V_CHOICE_FLOAT(fl[0], fl[1]); break;
                default: e = *V_CHOICE_FLOAT(fl[0], fl[1], fl[2]); e.data.choices.count = (size_t)s->n; break;
            }
            e.data.choices.as_floats = fl;
            break;
        default:
            e = *MAKE_VALIDATOR(tramp_validator, NULL, _V_DATA_CUSTOM_(s->data),
                                (s->post ? ORDER_POST : ORDER_PRE));
    }
    memcpy(slot, &e, sizeof(e));
}

int br_declared_equal(const void *pa, const void *pb)
{
    const argus_option_t *a = pa, *b = pb;
    return a->type == b->type && a->name == b->name && a->sname == b->sname && a->lname == b->lname &&
           a->help == b->help && a->hint == b->hint && a->value_type == b->value_type &&
           a->default_value.raw == b->default_value.raw && a->have_default == b->have_default &&
           a->env_name == b->env_name && a->handler == b->handler && a->free_handler == b->free_handler &&
           a->validators == b->validators && a->conflict == b->conflict && a->require == b->require &&
           a->flags == b->flags && a->action == b->action && a->sub_options == b->sub_options &&
           a->line == b->line && a->file == b->file;
}
void br_opt_copy(void *dst, const void *src) { memcpy(dst, src, sizeof(argus_option_t)); }
int  br_ventry_equal(const void *pa, const void *pb)
{
    const validator_entry_t *a = pa, *b = pb;
    return a->func == b->func && a->order == b->order && a->formatter == b->formatter &&
           memcmp(&a->data, &b->data, sizeof(a->data)) == 0;
}

void br_init(void *ctx, void *options, const char *prog, const char *ver, int dbg)
{
    argus_t a = _argus_init_validate(options, prog, ver, dbg);
    memcpy(ctx, &a, sizeof(a));
}
void br_ctx_config(void *ctx, const char *desc, const char *prefix, const size_t cfg[4], int spaces)
{
    argus_t *a     = ctx;
    a->description = desc;
    a->env_prefix  = prefix;
    if (cfg) {
        a->helper.config.max_line_width          = cfg[0];
        a->helper.config.description_column      = cfg[1];
        a->helper.config.option_indent           = cfg[2];
        a->helper.config.smart_hint_max_length   = cfg[3];
        a->helper.config.smart_hint_allow_spaces = spaces;
    }
}
int         br_ctx_error(void *ctx) { return ((argus_t *)ctx)->error_code; }
void        br_ctx_set_error(void *ctx, int code) { ((argus_t *)ctx)->error_code = code; }
size_t      br_ctx_depth(void *ctx) { return ((argus_t *)ctx)->subcommand_depth; }
const void *br_ctx_stack(void *ctx, size_t i) { return ((argus_t *)ctx)->subcommand_stack[i]; }

static br_val val(argus_value_t v)
{
    return (br_val){v.as_int64, v.as_int, v.as_float, v.as_bool, v.as_string, v.as_ptr};
}
int    br_parse(void *ctx, int argc, char **argv) { return argus_parse(ctx, argc, argv); }
void   br_free(void *ctx) { argus_free(ctx); }
void   br_help(void *ctx) { argus_print_help(ctx); }
void   br_usage(void *ctx) { argus_print_usage(ctx); }
void   br_version(void *ctx) { argus_print_version(ctx); }
int    br_exec(void *ctx, void *data) { return argus_exec(ctx, data); }
int    br_has_command(void *ctx) { return argus_has_command(ctx); }
int    br_is_set(void *ctx, const char *path) { return argus_is_set(ctx, path); }
/* A read must not leave the error of something earlier */
static void stale(void *ctx) { ((argus_t *)ctx)->error_code = ARGUS_ERROR_INTERNAL; }
br_val br_get(void *ctx, const char *path) { stale(ctx); return val(argus_get(ctx, path)); }
size_t br_count(void *ctx, const char *path) { return argus_count(ctx, path); }
br_val br_array_get(void *ctx, const char *path, size_t i) { stale(ctx); return val(argus_array_get(ctx, path, i)); }
br_val br_map_get(void *ctx, const char *path, const char *key) { stale(ctx); return val(argus_map_get(ctx, path, key)); }
size_t br_it_size(void) { return sizeof(argus_array_it_t) + sizeof(argus_map_it_t); }
void   br_array_it(void *ctx, const char *path, void *it) { *(argus_array_it_t *)it = argus_array_it(ctx, path); }
int    br_array_next(void *it, br_val *v)
{
    argus_array_it_t *a = it;
    int               r = argus_array_next(a);
    if (r)
        *v = val(a->value);
    return r;
}
void br_array_reset(void *it) { argus_array_reset(it); }
void br_map_it(void *ctx, const char *path, void *it) { *(argus_map_it_t *)it = argus_map_it(ctx, path); }
int  br_map_next(void *it, const char **key, br_val *v)
{
    argus_map_it_t *a = it;
    int             r = argus_map_next(a);
    if (r) {
        *v   = val(a->value);
        *key = a->key;
    }
    return r;
}
void   br_map_reset(void *it) { argus_map_reset(it); }
br_val br_raw_array(void *p, size_t i) { return val(((argus_value_t *)p)[i]); }
br_val br_raw_map(void *p, size_t i, const char **key)
{
    *key = ((argus_pair_t *)p)[i].key;
    return val(((argus_pair_t *)p)[i].value);
}

int br_builtin_handler(int kind, int type, void *ctx, void *opt, char *value)
{
    switch (type) {
        case T_INT: return int_handler(ctx, opt, value);
        case T_FLOAT: return float_handler(ctx, opt, value);
        case T_BOOL: return bool_handler(ctx, opt, value);
        case T_FLAG: return flag_handler(ctx, opt, value);
        case T_ASTR: return array_string_handler(ctx, opt, value);
        case T_AINT: return array_int_handler(ctx, opt, value);
        case T_AFLOAT: return array_float_handler(ctx, opt, value);
        case T_MSTR: return map_string_handler(ctx, opt, value);
        case T_MINT: return map_int_handler(ctx, opt, value);
        case T_MFLOAT: return map_float_handler(ctx, opt, value);
        case T_MBOOL: return map_bool_handler(ctx, opt, value);
        case T_VSTR: return variadic_string_handler(ctx, opt, value);
        case T_VINT: return variadic_int_handler(ctx, opt, value);
        case T_VFLOAT: return variadic_float_handler(ctx, opt, value);
        default: return string_handler(ctx, opt, value);
    }
}
void   br_opt_set_ptr(void *opt, void *p) { ((argus_option_t *)opt)->value.as_ptr = p; }
void  *br_opt_ptr(void *opt) { return ((argus_option_t *)opt)->value.as_ptr; }
int    br_opt_allocated(void *opt) { return ((argus_option_t *)opt)->is_allocated; }
void   br_opt_set_allocated(void *opt, int on) { ((argus_option_t *)opt)->is_allocated = on; }
br_val br_opt_value(void *opt) { return val(((argus_option_t *)opt)->value); }
size_t br_opt_count(void *opt) { return ((argus_option_t *)opt)->value_count; }
int    br_error(void *ctx, int code, const char *what)
{
    ARGUS_PARSING_ERROR((argus_t *)ctx, code, "%s", what);
    return code;
}
void br_print(int out, const char *text) { fputs(text, out ? stdout : stderr); }
