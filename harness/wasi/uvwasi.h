/* Interface of uvwasi (which is not installed here) as pwart_syslib uses it; the functions are recording stand-ins in wasi.cc. */
#ifndef STANDIN_UVWASI_H
#define STANDIN_UVWASI_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint32_t uvwasi_size_t;typedef uint16_t uvwasi_errno_t;typedef uint32_t uvwasi_fd_t;typedef uint32_t uvwasi_clockid_t;typedef uint64_t uvwasi_timestamp_t;typedef uint64_t uvwasi_filesize_t;typedef int64_t uvwasi_filedelta_t;
typedef uint8_t uvwasi_advice_t;typedef uint16_t uvwasi_fdflags_t;typedef uint64_t uvwasi_rights_t;typedef uint16_t uvwasi_fstflags_t;typedef uint64_t uvwasi_dircookie_t;typedef uint8_t uvwasi_whence_t;typedef uint32_t uvwasi_lookupflags_t;typedef uint16_t uvwasi_oflags_t;
typedef uint8_t uvwasi_signal_t;typedef uint32_t uvwasi_exitcode_t;typedef uint16_t uvwasi_riflags_t;typedef uint16_t uvwasi_roflags_t;typedef uint16_t uvwasi_siflags_t;typedef uint8_t uvwasi_sdflags_t;
typedef struct{uint8_t fs_filetype;uint16_t fs_flags;uint64_t fs_rights_base,fs_rights_inheriting;} uvwasi_fdstat_t;
typedef struct{uint64_t st_dev,st_ino;uint8_t st_filetype;uint64_t st_nlink,st_size,st_atim,st_mtim,st_ctim;} uvwasi_filestat_t;
typedef struct{uint8_t pr_type;union{struct{uvwasi_size_t pr_name_len;} dir;} u;} uvwasi_prestat_t;
typedef struct{void*buf;uvwasi_size_t buf_len;} uvwasi_iovec_t;
typedef struct{const void*buf;uvwasi_size_t buf_len;} uvwasi_ciovec_t;
typedef struct{uint64_t userdata;uint8_t type;union{struct{uint32_t clock_id;uint64_t timeout,precision;uint16_t flags;} clock;struct{uint32_t fd;} fd_readwrite;} u;} uvwasi_subscription_t;
typedef struct{uint64_t userdata;uint16_t error;uint8_t type;union{struct{uint64_t nbytes;uint16_t flags;} fd_readwrite;} u;} uvwasi_event_t;
typedef struct uvwasi_s{void*fds;uvwasi_size_t argc;char**argv;char*argv_buf;uvwasi_size_t argv_buf_size;uvwasi_size_t envc;char**env;char*env_buf;uvwasi_size_t env_buf_size;const void*allocator;void*loop;} uvwasi_t;
typedef struct{const char*mapped_path;const char*real_path;} uvwasi_preopen_t;
typedef struct{const char*address;int port;} uvwasi_preopen_socket_t;
typedef struct{uvwasi_size_t fd_table_size;uvwasi_size_t preopenc;uvwasi_preopen_t*preopens;uvwasi_size_t preopen_socketc;uvwasi_preopen_socket_t*preopen_sockets;uvwasi_size_t argc;const char**argv;const char**envp;uvwasi_fd_t in,out,err;const void*allocator;} uvwasi_options_t;
uvwasi_errno_t uvwasi_init(uvwasi_t*,const uvwasi_options_t*);
void uvwasi_destroy(uvwasi_t*);
void uvwasi_options_init(uvwasi_options_t*);
#define UVWASI_FUNCS(F) \
 F(args_get,char**,char*) F(args_sizes_get,uvwasi_size_t*,uvwasi_size_t*) F(clock_res_get,uvwasi_clockid_t,uvwasi_timestamp_t*) F(clock_time_get,uvwasi_clockid_t,uvwasi_timestamp_t,uvwasi_timestamp_t*) \
 F(environ_get,char**,char*) F(environ_sizes_get,uvwasi_size_t*,uvwasi_size_t*) F(fd_advise,uvwasi_fd_t,uvwasi_filesize_t,uvwasi_filesize_t,uvwasi_advice_t) F(fd_allocate,uvwasi_fd_t,uvwasi_filesize_t,uvwasi_filesize_t) \
 F(fd_close,uvwasi_fd_t) F(fd_datasync,uvwasi_fd_t) F(fd_fdstat_get,uvwasi_fd_t,uvwasi_fdstat_t*) F(fd_fdstat_set_flags,uvwasi_fd_t,uvwasi_fdflags_t) F(fd_fdstat_set_rights,uvwasi_fd_t,uvwasi_rights_t,uvwasi_rights_t) \
 F(fd_filestat_get,uvwasi_fd_t,uvwasi_filestat_t*) F(fd_filestat_set_size,uvwasi_fd_t,uvwasi_filesize_t) F(fd_filestat_set_times,uvwasi_fd_t,uvwasi_timestamp_t,uvwasi_timestamp_t,uvwasi_fstflags_t) \
 F(fd_pread,uvwasi_fd_t,const uvwasi_iovec_t*,uvwasi_size_t,uvwasi_filesize_t,uvwasi_size_t*) F(fd_prestat_get,uvwasi_fd_t,uvwasi_prestat_t*) F(fd_prestat_dir_name,uvwasi_fd_t,char*,uvwasi_size_t) \
 F(fd_pwrite,uvwasi_fd_t,const uvwasi_ciovec_t*,uvwasi_size_t,uvwasi_filesize_t,uvwasi_size_t*) F(fd_read,uvwasi_fd_t,const uvwasi_iovec_t*,uvwasi_size_t,uvwasi_size_t*) F(fd_readdir,uvwasi_fd_t,void*,uvwasi_size_t,uvwasi_dircookie_t,uvwasi_size_t*) \
 F(fd_renumber,uvwasi_fd_t,uvwasi_fd_t) F(fd_seek,uvwasi_fd_t,uvwasi_filedelta_t,uvwasi_whence_t,uvwasi_filesize_t*) F(fd_sync,uvwasi_fd_t) F(fd_tell,uvwasi_fd_t,uvwasi_filesize_t*) F(fd_write,uvwasi_fd_t,const uvwasi_ciovec_t*,uvwasi_size_t,uvwasi_size_t*) \
 F(path_create_directory,uvwasi_fd_t,const char*,uvwasi_size_t) F(path_filestat_get,uvwasi_fd_t,uvwasi_lookupflags_t,const char*,uvwasi_size_t,uvwasi_filestat_t*) F(path_filestat_set_times,uvwasi_fd_t,uvwasi_lookupflags_t,const char*,uvwasi_size_t,uvwasi_timestamp_t,uvwasi_timestamp_t,uvwasi_fstflags_t) \
 F(path_link,uvwasi_fd_t,uvwasi_lookupflags_t,const char*,uvwasi_size_t,uvwasi_fd_t,const char*,uvwasi_size_t) F(path_open,uvwasi_fd_t,uvwasi_lookupflags_t,const char*,uvwasi_size_t,uvwasi_oflags_t,uvwasi_rights_t,uvwasi_rights_t,uvwasi_fdflags_t,uvwasi_fd_t*) \
 F(path_readlink,uvwasi_fd_t,const char*,uvwasi_size_t,char*,uvwasi_size_t,uvwasi_size_t*) F(path_remove_directory,uvwasi_fd_t,const char*,uvwasi_size_t) F(path_rename,uvwasi_fd_t,const char*,uvwasi_size_t,uvwasi_fd_t,const char*,uvwasi_size_t) \
 F(path_symlink,const char*,uvwasi_size_t,uvwasi_fd_t,const char*,uvwasi_size_t) F(path_unlink_file,uvwasi_fd_t,const char*,uvwasi_size_t) F(poll_oneoff,const uvwasi_subscription_t*,uvwasi_event_t*,uvwasi_size_t,uvwasi_size_t*) \
 F(proc_exit,uvwasi_exitcode_t) F(proc_raise,uvwasi_signal_t) F(random_get,void*,uvwasi_size_t) F(sock_accept,uvwasi_fd_t,uvwasi_fdflags_t,uvwasi_fd_t*) \
 F(sock_recv,uvwasi_fd_t,const uvwasi_iovec_t*,uvwasi_size_t,uvwasi_riflags_t,uvwasi_size_t*,uvwasi_roflags_t*) F(sock_send,uvwasi_fd_t,const uvwasi_ciovec_t*,uvwasi_size_t,uvwasi_siflags_t,uvwasi_size_t*) F(sock_shutdown,uvwasi_fd_t,uvwasi_sdflags_t)
#define UVWASI_DECL(n,...) uvwasi_errno_t uvwasi_##n(uvwasi_t*,__VA_ARGS__);
UVWASI_FUNCS(UVWASI_DECL)
uvwasi_errno_t uvwasi_sched_yield(uvwasi_t*);
#ifdef __cplusplus
}
#endif
#endif
