"""What the analyses assume about library functions (glibc, GLib): results, written arguments, split outcomes, effects."""

INF = float('inf')
ALIAS = {'g_unlink': 'unlink', 'g_rename': 'rename', 'g_remove': 'unlink', 'remove': 'unlink', 'g_open': 'open', 'open64': 'open', 'g_fopen': 'fopen', 'fopen64': 'fopen',
         'g_strcmp0': 'strcmp', 'g_close': 'close', 'g_fsync': 'fsync', 'fdatasync': 'fsync', '__isoc99_sscanf': 'sscanf', '__isoc23_sscanf': 'sscanf',
         '__isoc23_strtol': 'strtol', '__isoc99_fscanf': 'fscanf', 'g_str_equal': 'g_str_equal', 'stat64': 'stat', 'g_stat': 'stat', 'fstat64': 'fstat', 'lstat64': 'lstat', 'g_lstat': 'lstat', 'readdir64': 'readdir',
         'mmap64': 'mmap', '_exit': '_exit', '_Exit': '_exit', 'quick_exit': '_exit', 'g_snprintf': 'snprintf', '__errno_location': '__errno_location', 'g_timeout_add': 'g_timeout_add',
         'g_malloc0_n': 'g_malloc0', 'g_malloc_n': 'g_malloc', 'g_free_sized': 'g_free', 'posix_fadvise64': 'posix_fadvise',
         'readahead64': 'readahead', 'memmove': 'memcpy', 'g_memmove': 'memcpy', '__builtin_memcpy': 'memcpy', 'g_access': 'access', 'g_ascii_isdigit': 'isdigit'}
PURE = {'strcmp', 'strncmp', 'log', 'exp', 'sqrt', 'fabs', 'fmin', 'fmax', 'fmuladd', 'pow', 'log1p', 'expm1', 'g_str_hash', 'g_direct_hash',
        'strstr', 'strchr', 'strrchr', 'isdigit', 'atoi', 'strtol', 'strtod', 'g_strstr_len', 'g_str_has_prefix', 'g_str_has_suffix', 'g_str_equal', '__ctype_b_loc',
        '__errno_location', 'getpid', 'strlen', 'g_direct_equal', 'g_ascii_strcasecmp', 'g_ascii_strncasecmp', 'strcasecmp', 'floor', 'ceil', 'abs', 'labs', 'llabs'}
# ... of the memory their arguments designate
CONTENT = {'strcmp', 'strncmp', 'strstr', 'strchr', 'strrchr', 'atoi', 'strtol', 'strtod', 'g_strstr_len', 'g_str_has_prefix', 'g_str_has_suffix', 'g_str_equal', 'strlen',
           'g_ascii_strcasecmp', 'g_ascii_strncasecmp', 'strcasecmp', 'g_str_hash'}
# result ranges
RET = {'read': (-1, INF), 'open': (-1, INF), 'close': (-1, 0), 'fstat': (-1, 0), 'stat': (-1, 0), 'lstat': (-1, 0), 'rename': (-1, 0), 'unlink': (-1, 0),
       'fsync': (-1, 0), 'fork': (-1, INF), 'wait': (-1, INF), 'waitpid': (-1, INF), 'dup2': (-1, INF), 'dup': (-1, INF), 'readlink': (-1, INF), 'ioctl': (-1, INF), 'readahead': (-1, 0),
       'madvise': (-1, 0), 'munmap': (-1, 0), 'pipe': (-1, 0), 'fflush': (-1, 0), 'sscanf': (-1, INF), 'g_hash_table_size': (0, INF), 'g_list_length': (0, INF), 'g_slist_length': (0, INF), 'getpagesize': (1, INF),
       'g_hash_table_iter_next': (0, 1), 'g_key_file_load_from_file': (0, 1), 'g_file_test': (0, 1), 'g_file_get_contents': (0, 1), 'g_hash_table_lookup_extended': (0, 1),
       'g_hash_table_contains': (0, 1), 'g_io_channel_write_chars': (0, 3), 'g_io_channel_flush': (0, 3), 'g_io_channel_read_line_string': (0, 3), 'g_io_channel_shutdown': (0, 3),
       'clock_gettime': (-1, 0), 'strlen': (0, INF), 'g_ptr_array_remove': (0, 1), 'g_ptr_array_remove_fast': (0, 1), 'g_hash_table_remove': (0, 1)}
NONNULL = {'g_malloc', 'g_malloc0', 'g_strdup_printf', 'g_strconcat', 'g_hash_table_new', 'g_hash_table_new_full', 'g_ptr_array_new',
           'g_ptr_array_new_with_free_func', 'g_ptr_array_sized_new', 'g_string_new', 'g_string_sized_new', 'g_key_file_new', 'g_io_channel_unix_new', 'g_main_loop_new', 'g_slist_prepend', 'g_list_append', 'g_list_prepend', 'g_slist_append',
           'g_slice_alloc', 'g_slice_alloc0', 'g_build_filename', '__errno_location', '__ctype_b_loc', 'g_get_prgname', 'g_new0', 'g_strndup'}
NONNULL_FIELDS = {'_GError.message', '_GString.str'}
NONNEG_FIELDS = {'_GPtrArray.len', '_GArray.len', '_GString.len'}
PA = {('F', '_GPtrArray.len'), ('F', '_GPtrArray.pdata'), ('D',)}
SL = {('F', '_GSList.next'), ('F', '_GSList.data')}
DL = {('F', '_GList.next'), ('F', '_GList.prev'), ('F', '_GList.data')}
GS = {('F', '_GString.str'), ('F', '_GString.len'), ('F', '_GString.allocated_len')}
W = lambda *a, **k: dict(args=a, **k)
WRITES = {
    'read': W(1), 'readlink': W(1), 'fgets': W(0), 'snprintf': W(0), 'sprintf': W(0), 'vsnprintf': W(0), 'strcpy': W(0), 'strncpy': W(0), 'g_strlcpy': W(0), 'strcat': W(0), 'g_strlcat': W(0),
    'stat': W(1), 'fstat': W(1), 'lstat': W(1), 'wait': W(0), 'waitpid': W(1), 'ioctl': W(2), 'pipe': W(0), 'clock_gettime': W(1), 'time': W(0), 'getopt_long': W(4), 'sscanf': dict(scan=2), 'fscanf': dict(scan=2), 'fread': W(0), 'getline': W(0, 1),
    'g_io_channel_write_chars': W(3, 4), 'g_io_channel_flush': W(1), 'g_io_channel_shutdown': W(2), 'g_io_channel_new_file': W(2), 'g_io_channel_read_line_string': W(3, fields=GS), 'g_io_channel_set_encoding': W(2),
    'g_filename_to_uri': W(2), 'g_filename_from_uri': W(1, 2), 'g_file_get_contents': W(1, 2, 3), 'g_file_set_contents': W(3), 'g_hash_table_lookup_extended': W(2, 3),
    'g_hash_table_iter_init': W(0), 'g_hash_table_iter_next': W(0, 1, 2), 'g_hash_table_iter_remove': W(0), 'g_hash_table_steal_extended': W(2, 3),
    'g_key_file_load_from_file': W(3), 'g_key_file_get_integer': W(3), 'g_key_file_get_boolean': W(3), 'g_key_file_get_string': W(3), 'g_key_file_get_string_list': W(3, 4), 'g_key_file_get_double': W(3),
    'g_ptr_array_add': W(fields=PA), 'g_ptr_array_remove': W(fields=PA), 'g_ptr_array_remove_fast': W(fields=PA), 'g_ptr_array_remove_index': W(fields=PA), 'g_ptr_array_remove_index_fast': W(fields=PA),
    'g_ptr_array_sort': W(fields={('D',)}), 'g_ptr_array_set_size': W(fields=PA), 'g_ptr_array_free': W(fields=PA), 'g_ptr_array_insert': W(fields=PA), 'g_ptr_array_unref': W(fields=PA),
    'qsort': W(fields={('D',)}), 'g_qsort_with_data': W(fields={('D',)}),
    'g_slist_prepend': W(), 'g_slist_append': W(fields=SL), 'g_slist_remove': W(fields=SL), 'g_slist_remove_all': W(fields=SL), 'g_slist_delete_link': W(fields=SL), 'g_slist_free': W(fields=SL), 'g_slist_reverse': W(fields=SL),
    'g_list_prepend': W(), 'g_list_append': W(fields=DL), 'g_list_remove': W(fields=DL), 'g_list_remove_all': W(fields=DL), 'g_list_delete_link': W(fields=DL), 'g_list_free': W(fields=DL), 'g_list_remove_link': W(fields=DL), 'g_list_free_1': W(fields=DL),
    'g_string_printf': W(fields=GS), 'g_string_append': W(fields=GS), 'g_string_append_printf': W(fields=GS), 'g_string_assign': W(fields=GS), 'g_string_truncate': W(fields=GS), 'g_string_append_c': W(fields=GS), 'g_string_append_len': W(fields=GS),
    'g_propagate_error': W(0), 'g_set_error': W(0), 'g_clear_error': W(0), 'g_strstrip': W(), 'g_strchug': W(), 'g_strchomp': W(),
    'g_free': W(), 'free': W(), 'g_error_free': W(), 'g_log': W(), 'fprintf': W(), 'printf': W(), 'g_strdup': W(), 'close': W(), 'fclose': W(), 'closedir': W(),
    'g_hash_table_insert': W(), 'g_hash_table_remove': W(), 'g_hash_table_lookup': W(), 'g_hash_table_steal': W(), 'g_hash_table_destroy': W(), 'g_hash_table_replace': W(), 'g_hash_table_add': W(),
    'g_timeout_add': W(), 'g_timeout_add_seconds': W(), 'g_timeout_add_full': W(), 'g_timeout_add_seconds_full': W(), 'g_idle_add': W(), 'signal': W(),
}
SCAN = {'sscanf', 'fscanf'}
READONLY = {'strlen', 'strcmp', 'g_strconcat', 'g_strdup_printf', 'open', 'unlink', 'rename', 'fsync', 'access', 'opendir', 'readdir', 'fopen', 'execl', 'execv', 'execve', 'write', 'fwrite', 'fputs', 'puts',
            'g_str_hash', 'strftime', 'ctime', 'strerror', 'g_strerror', 'link', 'symlink', 'truncate', 'chmod', 'chown', 'mkdir', 'g_mkdir', 'rmdir', 'g_main_loop_run', 'g_main_loop_quit', 'sigaction', 'g_return_if_fail_warning',
            'g_assertion_message_expr', 'g_hash_table_foreach', 'g_log_set_default_handler', 'readahead', 'mmap', 'munmap', 'madvise', 'syscall', 'atoi', 'strtol', 'g_file_test', 'g_hash_table_size', 'g_hash_table_contains'}
NORET = {'exit', '_exit', 'abort', 'g_assertion_message_expr', 'g_assertion_message', 'g_assert_warning', 'g_abort', '__assert_fail', 'g_assertion_message_cmpnum', 'g_assertion_message_cmpint', 'g_assertion_message_cmpstr', 'g_assertion_message_error'}


def noreturn(name, args):
    if name in NORET:
        return True
    if name in ('g_log', 'g_logv') and len(args) > 1 and args[1].k == 'i' and args[1].a[0] & 4:
        return True
    return False


OK_NONNULL = (-INF, INF, (0,))
NUL = (0, 0, ())


def outcomes(name, args, i):
    """[(label, result refinement (lo,hi,ne) or None, {arg index: 'nonnull'|'any'|'null'})] or None"""
    if name in ('g_io_channel_write_chars', 'g_io_channel_flush', 'g_io_channel_shutdown'):
        e = {'g_io_channel_write_chars': 4, 'g_io_channel_flush': 1, 'g_io_channel_shutdown': 2}[name]
        return [('ok', (1, 1, ()), {e: 'keep'}), ('err', (0, 0, ()), {e: 'nonnull'})]
    if name == 'g_io_channel_read_line_string':
        return [('ok', (1, 1, ()), {3: 'keep'}), ('err', (0, 0, ()), {3: 'nonnull'}), ('eof', (2, 2, ()), {3: 'keep'}), ('again', (3, 3, ()), {3: 'keep'})]
    if name in ('g_filename_to_uri',):
        return [('ok', OK_NONNULL, {2: 'keep'}), ('err', NUL, {2: 'nonnull'})]
    if name in ('g_filename_from_uri',):
        return [('ok', OK_NONNULL, {2: 'keep', 1: 'any'}), ('err', NUL, {2: 'nonnull'})]
    if name == 'g_io_channel_new_file':
        return [('ok', OK_NONNULL, {2: 'keep'}), ('err', NUL, {2: 'nonnull'})]
    if name == 'g_key_file_load_from_file':
        return [('ok', (1, 1, ()), {3: 'keep'}), ('err', NUL, {3: 'nonnull'})]
    if name in ('g_key_file_get_integer', 'g_key_file_get_boolean', 'g_key_file_get_double'):
        return [('ok', None, {3: 'keep'}), ('err', NUL if name != 'g_key_file_get_double' else None, {3: 'nonnull'})]
    if name == 'g_key_file_get_string':
        return [('ok', OK_NONNULL, {3: 'keep'}), ('err', NUL, {3: 'nonnull'})]
    if name == 'g_key_file_get_string_list':
        return [('ok', OK_NONNULL, {4: 'keep', 3: 'any'}), ('err', NUL, {4: 'nonnull', 3: 'any'})]
    if name == 'g_file_get_contents':
        return [('ok', (1, 1, ()), {1: 'nonnull', 2: 'any', 3: 'keep'}), ('err', NUL, {1: 'null', 3: 'nonnull'})]
    if name in ('rename', 'unlink', 'fsync', 'close', 'fstat', 'stat', 'lstat', 'dup2') and i.ty != 'v':
        if name in ('dup2',):
            return None
        return [('ok', NUL, {}), ('err', (-1, -1, ()), {})]
    if name in ('open',):
        return [('ok', (0, INF, ()), {}), ('err', (-1, -1, ()), {})]
    if name == 'g_clear_error':
        return [(None, None, {0: 'null'})]
    if name == 'g_hash_table_iter_next':
        return [('next', (1, 1, ()), {1: 'any', 2: 'any', 0: 'any'}), ('end', NUL, {0: 'any'})]
    if name == 'g_hash_table_lookup_extended':
        return [('found', (1, 1, ()), {2: 'any', 3: 'any'}), ('absent', NUL, {})]
    if name == 'fork':
        return [('child', NUL, {}), ('err', (-1, -1, ()), {}), ('parent', (1, INF, ()), {})]
    return None
