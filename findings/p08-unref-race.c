#include "config.h"
#include "dex-object-private.h"
typedef struct { DexObject parent; } Foo; typedef struct { DexObjectClass parent; } FooClass;
GType foo_get_type(void);
#undef DEX_TYPE_OBJECT
#define DEX_TYPE_OBJECT dex_object_get_type()
static void foo_fin(DexObject*o);
static DexObjectClass *pc;
static void foo_ci(gpointer k){pc=g_type_class_peek_parent(k);((DexObjectClass*)k)->finalize=foo_fin;}
static void foo_fin(DexObject*o){ printf("finalize\n"); pc->finalize(o);}
GType foo_get_type(void){static GType t; if(!t)t=g_type_register_static_simple(DEX_TYPE_OBJECT,"Foo",sizeof(FooClass),(GClassInitFunc)foo_ci,sizeof(Foo),NULL,0);return t;}
static DexObject *o; static DexWeakRef wr;
static gpointer A(gpointer d){ dex_unref(o); return NULL;}
int main(void){
  o=(DexObject*)g_type_create_instance(foo_get_type());
  dex_weak_ref_init(&wr,o);
  g_mutex_lock(&o->mutex);
  GThread*t=g_thread_new("A",A,NULL);
  while(g_atomic_int_get((int*)&o->ref_count)>0);
  g_usleep(1000);
  gpointer up=dex_weak_ref_get(&wr);
  g_mutex_unlock(&o->mutex);
  dex_unref(up);
  g_thread_join(t); printf("end\n");
}
