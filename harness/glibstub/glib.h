/* The part of glib the threaded signing plugin uses; the functions are contract stubs (threaded.c). */
#ifndef VF_GLIB_H
#define VF_GLIB_H
#include <stddef.h>
#include <stdint.h>
typedef struct { int dummy; } GMutex;
typedef struct { int dummy; } GCond;
typedef struct { int dummy; } GThread;
typedef struct { int dummy; } GError;
typedef void *gpointer;
typedef int gboolean;
typedef int64_t gint64;
typedef gpointer (*GThreadFunc)(gpointer);
#define G_TIME_SPAN_SECOND ((gint64)1000000)
void g_mutex_init(GMutex *m);
void g_mutex_clear(GMutex *m);
void g_mutex_lock(GMutex *m);
void g_mutex_unlock(GMutex *m);
void g_cond_init(GCond *c);
void g_cond_clear(GCond *c);
void g_cond_signal(GCond *c);
void g_cond_broadcast(GCond *c);
void g_cond_wait(GCond *c, GMutex *m);
gboolean g_cond_wait_until(GCond *c, GMutex *m, gint64 end_time);
GThread *g_thread_try_new(const char *name, GThreadFunc f, gpointer data, GError **e);
GThread *g_thread_new(const char *name, GThreadFunc f, gpointer data);
gpointer g_thread_join(GThread *t);
gint64 g_get_monotonic_time(void);
#endif
