/* C interface to the implementation under test, usable from C++ (the project's
 * own headers are not).  Only the public headers of /repo/include are used. */
#ifndef SHIM_H
#define SHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { VT_VARCHAR, VT_INTEGER, VT_TINYINT, VT_DOUBLE, VT_DATE, VT_DATETIME };
enum { VS_ROWS, VS_EXEC, VS_ERROR, VS_NULL };
typedef struct { int null; int type; int64_t i; double d; const char *s; int slen; int terminated; } vcell;
typedef struct { const char *name; int type, precision, indexed, nullable, unique, auto_inc, primary_key; } vcol;
typedef struct { void *blk; size_t off; int started; } vit;
typedef struct vdb vdb;
typedef struct { void *out; int status; const char *msg; size_t naff; void *table; } vres;

vdb *vdb_open(void);
int vdb_close(vdb *);
void *vdb_raw(vdb *);
void vdb_exec(vdb *, const char *sql, vres *);
void vres_free(vres *);
int vres_step(vres *, vit *);            /* 1 row, 0 end, -1 other value */
int64_t vres_int(vres *, int col);       /* query_column_int64 */

void *vdb_table(vdb *, const char *name);
int vdb_exists(vdb *, const char *name);
int vdb_tables(vdb *, char (*names)[160], int max);  /* number of tables */
int vdb_lock(vdb *);
int vdb_unlock(vdb *);

int vt_ncols(void *t);
const char *vt_name(void *t);
void vt_col(void *t, int i, vcol *);
int vt_next(void *t, vit *);             /* next live row: 1, or 0 at the end */
void vt_cell(void *t, const vit *, int col, vcell *);
int vt_blocks(void *t);
int vt_slots(void *t, int *live, int *deleted, int *empty); /* slot statistics */
uint64_t vt_hash(void *t);                /* layout of the table: slots, flags, live values */
long vt_held(void *t);                   /* allocations that hold its rows */
size_t vt_row_size(void *t);
size_t vt_page_size(void);
int vt_max_columns(void);
int vt_max_name(void);

/* storage layer without SQL */
void *rt_init(const char *name);
int rt_destroy(void *t);
int rt_add(void *t, const char *name, int type, int prec);
int rt_rem(void *t, int col);
int rt_insert(void *t, const vcell *cells);
int rt_update(void *t, const vit *it, const vcell *cells);
int rt_delete(void *t, const vit *it);
int rt_vacuum(void *t);
#ifdef __cplusplus
}
#endif
#endif
