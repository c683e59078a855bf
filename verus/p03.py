"""Maps: the code generated for every structure, against the pinned layout."""
import structs
UNITS = []


def make(repo, build, sh, deep, fresh):
    return structs.make('map', repo, build, sh, deep, fresh)
