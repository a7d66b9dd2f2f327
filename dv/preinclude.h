/* Forced first include for the IR that the verifier reads (never for the
 * replay harnesses).  It only disables GLib's macro / always-inline
 * expansions of functions that also exist out of line, so that calls such as
 * g_string_append() and g_strdup() stay calls and can be given a contract.
 * Nothing of satyr's own text is changed or dropped. */
#include <glib.h>
#undef g_string_append
#undef g_string_append_c
#undef g_string_append_len
#undef g_string_truncate
#undef g_string_free
#undef g_strdup
#undef g_str_has_prefix
#undef g_str_has_suffix
#undef g_free
