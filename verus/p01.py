"""Tag files: the code generated for every structure, enumeration and set of flags, against the pinned layout."""
import structs
UNITS = []


def make(repo, build, sh, deep, fresh):
    return structs.make('file', repo, build, sh, deep, fresh)
