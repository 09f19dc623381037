#include "edits.h"
#include <unistd.h>
namespace tp {
std::string randomEdit(Rng &r, T::MediaFileInfo &f)
{
    std::string d;
    static const T::KnownField fields[] = { T::KnownField::Title, T::KnownField::Album, T::KnownField::Artist, T::KnownField::Comment, T::KnownField::Lyrics, T::KnownField::AlbumArtist, T::KnownField::Composer };
    if (r.chance(10))
        return "(no edit) ";
    for (auto *t : f.tags()) {
        auto n = r.below(4);
        for (unsigned i = 0; i < n; ++i) {
            auto k = r.pick(fields);
            if (r.chance(25)) {
                t->setValue(k, T::TagValue());
                d += std::string("clear ") + knownFieldName(k) + " ";
            } else {
                auto s = randomText(r, r.chance(10) ? 20000 : 300);
                t->setValue(k, utf8Value(s));
                d += std::string("set ") + knownFieldName(k) + strf("(%zu) ", s.size());
            }
        }
        if (r.chance(5)) {
            t->removeAllFields();
            d += "removeAll ";
        }
    }
    if (r.chance(5)) {
        f.removeAllTags();
        d += "removeTags ";
    }
    return d;
}
void emptyDirExcept(const std::string &dir, const std::string &keep)
{
    for (auto &n : listDir(dir))
        if (n != keep)
            unlink((dir + "/" + n).c_str());
}
}
