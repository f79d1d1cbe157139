exec(open(__file__.replace("b8.py", "b7.py")).read().split("BUGS")[0])
BUGS = [
dict(id="ht-string-prefix", prop="C01", edits=[("src/libcork/ds/hash-table.c","    return strcmp(k1, k2) == 0;","    return strncmp(k1, k2, 1024) == 0;")],
 needs="two string keys of more than 1024 bytes that differ only after that, in one bin", breaks="they are taken for the same key",
 demo=PRE+'''
int main(void) { struct cork_hash_table *t = cork_string_hash_table_new(0, 0); static char k[60][1200]; for (int i = 0; i < 60; i++) { bool nw; memset(k[i], 'x', 1100); sprintf(k[i] + 1100, "%d", i); cork_hash_table_put(t, k[i], k[i], &nw, NULL, NULL); CHECK(nw); } for (int i = 0; i < 60; i++) CHECK(cork_hash_table_get(t, k[i]) == k[i]); CHECK(cork_hash_table_size(t) == 60); cork_hash_table_free(t); return 0; }'''),
dict(id="pl-find-special", prop="C26", edits=[("src/libcork/posix/files.c","        if (exists) {\n            return file;","        if (exists && file->type != CORK_FILE_UNKNOWN) {\n            return file;")],
 needs="a path list whose first match is a fifo, a socket or a device", breaks="it is passed over",
 demo=PRE+'''
#include <libcork/os.h>
#include <sys/stat.h>
int main(void) { struct cork_path_list *l = cork_path_list_new("/nonexistent:/dev"); struct cork_file *f = cork_path_list_find_file(l, "null"); CHECK(f != NULL); cork_file_free(f); cork_path_list_free(l); return 0; }'''),
dict(id="fi-socket-directory", prop="C27", edits=[("src/libcork/posix/files.c","        } else if (S_ISDIR(file->stat.st_mode)) {\n            file->type = CORK_FILE_DIRECTORY;","        } else if ((file->stat.st_mode & S_IFDIR) != 0) {\n            file->type = CORK_FILE_DIRECTORY;")],
 needs="asking for the type of a socket or a block device", breaks="it is reported as a directory",
 demo=PRE+'''
#include <libcork/os.h>
#include <sys/stat.h>
#include <stdlib.h>
int main(void) { char d[] = "/tmp/demo-XXXXXX", p[60]; CHECK(mkdtemp(d)); sprintf(p, "%s/s", d); int ok = mknod(p, S_IFSOCK | 0600, 0) == 0; enum cork_file_type t = 0; struct cork_file *f = cork_file_new(p); int rc = cork_file_type(f, &t); cork_file_free(f); unlink(p); rmdir(d); CHECK(ok && rc == 0); CHECK(t == CORK_FILE_UNKNOWN); return 0; }'''),
]
