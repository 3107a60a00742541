/* force-included before every analysed translation unit: collapses GLib's
 * open-coded dynamic type tests into one call so that a guard is one node */
#include <glib-object.h>
#undef _G_TYPE_CIT
#define _G_TYPE_CIT(ip, gt) (g_type_check_instance_is_a ((GTypeInstance*) (ip), (gt)))
#undef _G_TYPE_CVH
#define _G_TYPE_CVH(vl, gt) (g_type_check_value_holds ((const GValue*) (vl), (gt)))
#undef _G_TYPE_CCT
#define _G_TYPE_CCT(cp, gt) (g_type_check_class_is_a ((GTypeClass*) (cp), (gt)))
