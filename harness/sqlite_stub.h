/* Stand-in for SQLite: the two tables of the retention database and the statements the server uses on them */
#ifndef SQLITE_STUB_H
#define SQLITE_STUB_H
typedef struct sqlite3 sqlite3; typedef struct sqlite3_stmt sqlite3_stmt;
#ifndef SQROWS
#define SQROWS 6
#endif
#ifndef SQBLOB
#define SQBLOB 16
#endif
struct sq_row { int used, id, count, isnull, size; char name[34], type[34]; uint8_t data[SQBLOB]; };
struct sq_type { int used, id; char name[34], def[64]; };
static struct sq_row sq_tags[SQROWS];
static struct sq_type sq_types[3];
static int sq_have_tables, sq_nextid = 1, sq_last, sq_open;
enum { Q_NONE, Q_SELTYPES, Q_SELTAGS, Q_INSTYPE, Q_INSTAG, Q_UPDATE };
struct sqlite3 { int dummy; };
struct sqlite3_stmt { int kind, row, id, count; char name[34], type[34]; const void *blob; int blobsize; const char *text; int id2; };
static struct sqlite3 sq_db;
static struct sqlite3_stmt sq_st[4]; /* one of each kind is enough: select, insert type, insert tag, update */
static int sq_prefix(const char *q, const char *p) { for(int i = 0; p[i]; i++) if(q[i] != p[i]) return 0; return 1; }
static const char *sq_word(const char *q, char *out) { /* 'text' */
    int i = 0;
    while(*q && *q != '\'') q++;
    q++;
    while(*q && *q != '\'') out[i++] = *q++;
    out[i] = 0;
    return q + 1;
}
static const char *sq_num(const char *q, int *out) {
    int v = 0;
    while(*q && (*q < '0' || *q > '9')) q++;
    while(*q >= '0' && *q <= '9') v = v * 10 + (*q++ - '0');
    *out = v;
    return q;
}
int sqlite3_open(const char *f, sqlite3 **s) { *s = &sq_db; sq_open = 1; return 0; }
int sqlite3_close(sqlite3 *s) { return 0; }
#define UNKNOWN_SQL() do { CHECK(0, "encoding: an SQL statement the stand-in knows"); ASSUME(0); } while(0)
int sqlite3_prepare_v2(sqlite3 *s, const char *q, int n, sqlite3_stmt **st, const char **t) {
    struct sqlite3_stmt *p;
    *st = NULL;
    if(!sq_have_tables) return 1;
    if(sq_prefix(q, "SELECT name,definition FROM types ORDER BY id;")) { p = &sq_st[0]; p->kind = Q_SELTYPES; p->row = -1; }
    else if(sq_prefix(q, "SELECT name,type,count,data FROM tags;")) { p = &sq_st[0]; p->kind = Q_SELTAGS; p->row = -1; }
    else if(sq_prefix(q, "INSERT OR REPLACE INTO main.types(id,name,definition) VALUES (")) { p = &sq_st[1]; p->kind = Q_INSTYPE; q = sq_num(q + 61, &p->id); sq_word(q, p->name); p->text = NULL; }
    else if(sq_prefix(q, "INSERT OR REPLACE INTO main.tags(name,type,count,data) VALUES (")) { p = &sq_st[2]; p->kind = Q_INSTAG; q = sq_word(q, p->name); q = sq_word(q, p->type); sq_num(q, &p->count); p->blob = NULL; }
    else if(sq_prefix(q, "UPDATE tags SET data = ?1 WHERE id = ?2;")) { p = &sq_st[3]; p->kind = Q_UPDATE; p->blob = NULL; }
    else { UNKNOWN_SQL(); return 1; }
    *st = p;
    return 0;
}
static void sq_store(struct sq_row *r, const uint8_t *d, int n) {
    r->isnull = d == NULL; r->size = d == NULL ? 0 : n;
    CHECK(n >= 0 && n <= SQBLOB, "encoding: the stand-in holds the data");
    for(int i = 0; i < SQBLOB; i++) if(d != NULL && i < n) r->data[i] = d[i];
}
static int sq_eq(const char *a, const char *b) { for(int i = 0; ; i++) { if(a[i] != b[i]) return 0; if(a[i] == 0) return 1; } }
static void sq_cpy(char *a, const char *b, int n) { int i; for(i = 0; i < n - 1 && b[i]; i++) a[i] = b[i]; a[i] = 0; }
int sqlite3_step(sqlite3_stmt *st) {
    if(st == NULL) return 21; /* SQLITE_MISUSE */
    if(st->kind == Q_SELTYPES) { for(st->row++; st->row < 3; st->row++) if(sq_types[st->row].used) return 100; return 101; }
    if(st->kind == Q_SELTAGS) { for(st->row++; st->row < SQROWS; st->row++) if(sq_tags[st->row].used) return 100; return 101; }
    if(st->kind == Q_INSTYPE) {
        int r = -1;
        for(int i = 0; i < 3; i++) if(sq_types[i].used && (sq_types[i].id == st->id || sq_eq(sq_types[i].name, st->name))) sq_types[i].used = 0;
        for(int i = 0; i < 3; i++) if(!sq_types[i].used) { r = i; break; }
        CHECK(r >= 0, "encoding: the stand-in holds the types");
        sq_types[r].used = 1; sq_types[r].id = st->id; sq_cpy(sq_types[r].name, st->name, 34); sq_cpy(sq_types[r].def, st->text, 64);
        return 101;
    }
    if(st->kind == Q_INSTAG) {
        int r = -1;
        for(int i = 0; i < SQROWS; i++) if(sq_tags[i].used && sq_eq(sq_tags[i].name, st->name)) sq_tags[i].used = 0;
        for(int i = 0; i < SQROWS; i++) if(!sq_tags[i].used) { r = i; break; }
        CHECK(r >= 0, "encoding: the stand-in holds the tags");
        sq_tags[r].used = 1; sq_tags[r].id = sq_last = sq_nextid++; sq_tags[r].count = st->count;
        sq_cpy(sq_tags[r].name, st->name, 34); sq_cpy(sq_tags[r].type, st->type, 34);
        sq_store(&sq_tags[r], st->blob, st->blobsize);
        return 101;
    }
    if(st->kind == Q_UPDATE) {
        for(int i = 0; i < SQROWS; i++) if(sq_tags[i].used && sq_tags[i].id == st->id2) sq_store(&sq_tags[i], st->blob, st->blobsize);
        return 101;
    }
    return 21;
}
int sqlite3_reset(sqlite3_stmt *st) { return 0; }
int sqlite3_clear_bindings(sqlite3_stmt *st) { return 0; }
int sqlite3_finalize(sqlite3_stmt *st) { return 0; }
int sqlite3_exec(sqlite3 *s, const char *q, int (*cb)(void *, int, char **, char **), void *a, char **e) {
    int id;
    if(sq_prefix(q, "DROP TABLE IF EXISTS tags;")) { for(int i = 0; i < SQROWS; i++) sq_tags[i].used = 0; sq_nextid = 1; }
    else if(sq_prefix(q, "DROP TABLE IF EXISTS types;")) { for(int i = 0; i < 3; i++) sq_types[i].used = 0; }
    else if(sq_prefix(q, "CREATE TABLE IF NOT EXISTS types")) sq_have_tables = 1;
    else if(sq_prefix(q, "DELETE FROM main.tags WHERE id = ")) { sq_num(q + 33, &id); for(int i = 0; i < SQROWS; i++) if(sq_tags[i].used && sq_tags[i].id == id) sq_tags[i].used = 0; }
    else { UNKNOWN_SQL(); return 1; }
    return 0;
}
int sqlite3_bind_blob(sqlite3_stmt *st, int i, const void *d, int n, void (*f)(void *)) { if(st == NULL) return 21; st->blob = d; st->blobsize = n; return 0; }
int sqlite3_bind_int(sqlite3_stmt *st, int i, int v) { if(st == NULL) return 21; st->id2 = v; return 0; }
int sqlite3_bind_text(sqlite3_stmt *st, int i, const char *d, int n, void (*f)(void *)) { st->text = d; return 0; }
const unsigned char *sqlite3_column_text(sqlite3_stmt *st, int i) {
    if(st->kind == Q_SELTYPES) return (const unsigned char *)(i == 0 ? sq_types[st->row].name : sq_types[st->row].def);
    return (const unsigned char *)(i == 0 ? sq_tags[st->row].name : sq_tags[st->row].type);
}
int sqlite3_column_int(sqlite3_stmt *st, int i) { return sq_tags[st->row].count; }
const void *sqlite3_column_blob(sqlite3_stmt *st, int i) { return sq_tags[st->row].isnull ? NULL : sq_tags[st->row].data; }
int sqlite3_column_bytes(sqlite3_stmt *st, int i) { return sq_tags[st->row].isnull ? 0 : sq_tags[st->row].size; }
long long sqlite3_last_insert_rowid(sqlite3 *s) { return sq_last; }
int sqlite3_changes(sqlite3 *s) { return 1; }
const char *sqlite3_errmsg(sqlite3 *s) { return ""; }
/* the row of that name or NULL */
static struct sq_row *sq_find(const char *name) { for(int i = 0; i < SQROWS; i++) if(sq_tags[i].used && sq_eq(sq_tags[i].name, name)) return &sq_tags[i]; return NULL; }
static int sq_count(void) { int c = 0; for(int i = 0; i < SQROWS; i++) c += sq_tags[i].used; return c; }
#endif
