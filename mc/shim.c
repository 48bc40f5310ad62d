#include <engine/query.h>
#include <engine/database.h>
#include <primitive/table.h>
#include <primitive/row.h>
#include <primitive/column.h>
#include <lib/bit.h>
#include "shim.h"
/* allocations made here must not count as the implementation's */
struct vdb { struct database db; };
vdb *vdb_open(void)
{
	vdb *v = calloc(1, sizeof *v);
	if (database_open(&v->db) != MIDORIDB_OK) { free(v); return NULL; }
	return v;
}
int vdb_close(vdb *v) { database_close(&v->db); free(v); return 0; }
void *vdb_raw(vdb *v) { return &v->db; }
void vdb_exec(vdb *v, const char *sql, vres *r)
{
	char *copy = strdup(sql);       /* exact-size buffer: overreads are seen */
	struct query_output *o = query_execute(&v->db, copy);
	free(copy);
	memset(r, 0, sizeof *r);
	r->out = o;
	if (!o) { r->status = VS_NULL; r->msg = ""; return; }
	r->status = o->status == ST_OK_WITH_RESULTS ? VS_ROWS : o->status == ST_OK_EXECUTED ? VS_EXEC : VS_ERROR;
	o->error.message[sizeof o->error.message - 1] = 0;
	r->msg = o->error.message;
	r->naff = o->n_rows_aff;
	r->table = o->status == ST_OK_WITH_RESULTS ? o->results.table : NULL;
}
void vres_free(vres *r) { if (r->out) query_free(r->out); r->out = NULL; }
int vres_step(vres *r, vit *it)
{
	struct query_output *o = r->out;
	int rc = query_cur_step(&o->results);
	if (rc == MIDORIDB_ROW) {
		it->blk = o->results.cursor_blk;
		it->off = o->results.cursor_offset;
		it->started = 1;
		return 1;
	}
	return rc == MIDORIDB_OK ? 0 : -1;
}
int64_t vres_int(vres *r, int col) { return query_column_int64(&((struct query_output *)r->out)->results, col); }
void *vdb_table(vdb *v, const char *name)
{
	char b[512]; snprintf(b, sizeof b, "%s", name);
	return database_table_get(&v->db, b);
}
int vdb_exists(vdb *v, const char *name)
{
	char b[512]; snprintf(b, sizeof b, "%s", name);
	return database_table_exists(&v->db, b);
}
struct enumarg { char (*names)[160]; int n, max; };
static void enum_cb(struct hashtable *h, const void *k, size_t kl, const void *val, size_t vl, void *arg)
{
	struct enumarg *a = arg;
	(void)h; (void)kl; (void)vl; (void)val;
	if (a->names && a->n < a->max) snprintf(a->names[a->n], 160, "%s", (const char *)k);
	a->n++;
}
int vdb_tables(vdb *v, char (*names)[160], int max)
{
	struct enumarg a = { names, 0, max };
	hashtable_foreach(v->db.tables, enum_cb, &a);
	return a.n;
}
int vdb_lock(vdb *v) { return database_lock(&v->db); }
int vdb_unlock(vdb *v) { return database_unlock(&v->db); }
int vt_ncols(void *t) { return ((struct table *)t)->column_count; }
const char *vt_name(void *t) { return ((struct table *)t)->name; }
void vt_col(void *tt, int i, vcol *c)
{
	struct column *k = &((struct table *)tt)->columns[i];
	c->name = k->name; c->type = k->type; c->precision = k->precision; c->indexed = k->indexed;
	c->nullable = k->nullable; c->unique = k->unique; c->auto_inc = k->auto_inc; c->primary_key = k->primary_key;
}
int vt_next(void *tt, vit *it)
{
	struct table *t = tt;
	size_t rs = table_calc_row_size(t);
	struct list_head *pos;
	if (!it->started) {
		it->started = 1;
		pos = t->datablock_head->next;
		it->off = 0;
	} else {
		pos = &((struct datablock *)it->blk)->head;
		it->off += rs;
	}
	for (; pos != t->datablock_head; pos = pos->next, it->off = 0) {
		struct datablock *b = container_of(pos, struct datablock, head);
		for (; it->off + rs <= DATABLOCK_PAGE_SIZE; it->off += rs) {
			struct row *r = (struct row *)&b->data[it->off];
			if (!r->flags.empty && !r->flags.deleted) { it->blk = b; return 1; }
		}
	}
	return 0;
}
void vt_cell(void *tt, const vit *it, int col, vcell *c)
{
	struct table *t = tt;
	struct row *r = (struct row *)&((struct datablock *)it->blk)->data[it->off];
	struct column *k = &t->columns[col];
	char *p = r->data;
	memset(c, 0, sizeof *c);
	for (int i = 0; i < col; i++) p += table_calc_column_space(&t->columns[i]);
	c->type = k->type;
	/* own bit arithmetic: the implementation's bit functions are under test */
	c->null = (((unsigned char *)r->null_bitmap)[col / 8] >> (col % 8)) & 1;
	if (c->null) return;
	switch (k->type) {
	case CT_VARCHAR: {
		char *s; memcpy(&s, p, sizeof s);
		c->s = s;
		if (s) { c->slen = (int)strnlen(s, k->precision); c->terminated = c->slen < k->precision; }
		break; }
	case CT_DOUBLE: memcpy(&c->d, p, 8); break;
	case CT_TINYINT: c->i = *(signed char *)p; break;
	default: memcpy(&c->i, p, 8);
	}
}
int vt_blocks(void *tt) { return (int)list_length(((struct table *)tt)->datablock_head); }
int vt_slots(void *tt, int *live, int *deleted, int *empty)
{
	struct table *t = tt;
	size_t rs = table_calc_row_size(t);
	struct list_head *pos;
	*live = *deleted = *empty = 0;
	list_for_each(pos, t->datablock_head) {
		struct datablock *b = container_of(pos, struct datablock, head);
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row *)&b->data[i * rs];
			if (r->flags.empty) ++*empty; else if (r->flags.deleted) ++*deleted; else ++*live;
		}
	}
	return 0;
}
/* allocations that hold the rows of a table: its blocks, and the texts of its used slots */
long vt_held(void *tt)
{
	struct table *t = tt;
	size_t rs = table_calc_row_size(t);
	struct list_head *pos;
	long n = 0;
	list_for_each(pos, t->datablock_head) {
		struct datablock *b = container_of(pos, struct datablock, head);
		n++;
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *r = (struct row *)&b->data[i * rs];
			char *p = r->data;
			if (r->flags.empty) continue;
			for (int c = 0; c < t->column_count; p += table_calc_column_space(&t->columns[c]), c++)
				if (t->columns[c].type == CT_VARCHAR) { char *s; memcpy(&s, p, sizeof s); if (s) n++; }
		}
	}
	return n;
}
size_t vt_row_size(void *t) { return table_calc_row_size(t); }
size_t vt_page_size(void) { return DATABLOCK_PAGE_SIZE; }
int vt_max_columns(void) { return TABLE_MAX_COLUMNS; }
int vt_max_name(void) { return TABLE_MAX_NAME; }

/* ---- storage layer without SQL ---- */
void *rt_init(const char *name) { char b[256]; snprintf(b, sizeof b, "%s", name); return table_init(b); }
int rt_destroy(void *t) { struct table *x = t; return table_destroy(&x); }
int rt_add(void *t, const char *name, int type, int prec)
{
	struct column c; memset(&c, 0, sizeof c);
	snprintf(c.name, sizeof c.name, "%s", name);
	c.type = type; c.precision = type == CT_VARCHAR ? prec : (int)table_calc_column_precision(type); c.nullable = 1;
	return table_add_column(t, &c);
}
int rt_rem(void *t, int col) { struct column c = ((struct table *)t)->columns[col]; return table_rem_column(t, &c); }
/* a row in buffers of exactly the needed size, so that overreads are seen */
static struct row *mkrow(struct table *t, const vcell *c, char **texts)
{
	struct row *r = malloc(table_calc_row_size(t)); char *p;
	memset(r, 0, table_calc_row_size(t));
	p = r->data;
	for (int i = 0; i < t->column_count; i++) {
		struct column *k = &t->columns[i];
		texts[i] = NULL;
		if (c[i].null) ((unsigned char *)r->null_bitmap)[i / 8] |= 1u << (i % 8);
		else switch (k->type) {
		case CT_VARCHAR: texts[i] = strdup(c[i].s); memcpy(p, &texts[i], sizeof(char *)); break;
		case CT_DOUBLE: memcpy(p, &c[i].d, 8); break;
		case CT_TINYINT: *p = (char)c[i].i; break;
		default: memcpy(p, &c[i].i, 8);
		}
		p += table_calc_column_space(k);
	}
	return r;
}
static void rmrow(struct table *t, struct row *r, char **texts) { for (int i = 0; i < t->column_count; i++) free(texts[i]); free(r); }
int rt_insert(void *t, const vcell *c) { char *x[TABLE_MAX_COLUMNS]; struct row *r = mkrow(t, c, x); int rc = table_insert_row(t, r, table_calc_row_size(t)); rmrow(t, r, x); return rc; }
int rt_update(void *t, const vit *it, const vcell *c) { char *x[TABLE_MAX_COLUMNS]; struct row *r = mkrow(t, c, x); int rc = table_update_row(t, it->blk, it->off, r, table_calc_row_size(t)); rmrow(t, r, x); return rc; }
int rt_delete(void *t, const vit *it) { return table_delete_row(t, it->blk, it->off); }
int rt_vacuum(void *t) { return table_vacuum(t); }

static uint64_t fnv(uint64_t h, const void *p, size_t n) { const unsigned char *c = p; while (n--) { h ^= *c++; h *= 1099511628211ull; } return h; }
uint64_t vt_hash(void *tt)
{
	struct table *t = tt; size_t rs = table_calc_row_size(t); uint64_t h = 14695981039346656037ull; struct list_head *pos; vit it; vcell c;
	for (int i = 0; i < t->column_count; i++) { struct column *k = &t->columns[i]; h = fnv(h, k->name, strlen(k->name)); h = fnv(h, &k->type, sizeof k->type); h = fnv(h, &k->precision, sizeof k->precision); }
	h = fnv(h, &t->free_dtbkl_offset, sizeof t->free_dtbkl_offset);
	list_for_each(pos, t->datablock_head) {
		struct datablock *b = container_of(pos, struct datablock, head);
		h = fnv(h, "B", 1);
		for (size_t o = 0; o + rs <= DATABLOCK_PAGE_SIZE; o += rs) {
			struct row *r = (struct row *)&b->data[o];
			if (r->flags.empty) continue;
			h = fnv(h, &o, sizeof o); h = fnv(h, r->flags.deleted ? "D" : "L", 1);
			if (r->flags.deleted) continue;
			it.blk = b; it.off = o;
			for (int i = 0; i < t->column_count; i++) { vt_cell(t, &it, i, &c); h = fnv(h, &c.null, sizeof c.null); h = fnv(h, &c.i, 8); h = fnv(h, &c.d, 8); if (c.s) h = fnv(h, c.s, c.slen); }
		}
	}
	return h;
}
