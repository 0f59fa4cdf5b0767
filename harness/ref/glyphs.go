package ref

import (
	_ "embed"
	"strconv"
	"strings"
)

//go:embed glyphs.txt
var glyphsTxt string

// GlyphText maps glyph names to their characters; EncodingNames maps an encoding name to its 256 glyph names.
var GlyphText, EncodingNames, GlyphNames = func() (map[string]rune, map[string][]string, []string) {
	g, e := map[string]rune{}, map[string][]string{}
	var names []string
	for _, l := range strings.Split(strings.TrimSpace(glyphsTxt), "\n") {
		k, v, _ := strings.Cut(l, " ")
		if k != "AGL" {
			e[k] = strings.Split(v, ",")
			continue
		}
		for _, p := range strings.Split(v, ",") {
			n, h, _ := strings.Cut(p, "=")
			x, _ := strconv.ParseInt(h, 16, 32)
			g[n] = rune(x)
			names = append(names, n)
		}
	}
	return g, e, names
}()
