// Driver for package image (C33).
package main

import (
	"bytes"
	"fmt"
	im "image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math/rand"
	"strconv"
	"strings"

	"github.com/chai2010/webp"
	"github.com/donnie4w/gofer/image"
	"github.com/donnie4w/gofer/zzv/drv"
	"golang.org/x/image/bmp"
	"golang.org/x/image/tiff"
)

type kept struct {
	b    []byte
	copy string
}

type obj struct {
	cur  []byte
	kept []kept // everything that went in or came out
}

func (x *obj) keep(b []byte) []byte { x.kept = append(x.kept, kept{b, string(b)}); return b }

func num(s string) int { n, err := strconv.Atoi(s); must(err); return n }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var palette = []int{0, 16777215, 13181224, 766012, 1978078, 5066061, 15779850, 5900930}

func rgb(p int) color.NRGBA { return color.NRGBA{uint8(p >> 16), uint8(p >> 8), uint8(p), 255} }

func colour(k int, f string) color.NRGBA {
	if k == 7 && (f == "png" || f == "tiff") {
		return color.NRGBA{201, 33, 40, 128}
	}
	return rgb(palette[k])
}

// source makes an image of w x h pixels.
func source(f string, w, h, k int) []byte {
	m := im.NewNRGBA(im.Rect(0, 0, w, h))
	pal := color.Palette{}
	for i := range palette {
		pal = append(pal, rgb(palette[i]))
	}
	g := im.NewPaletted(m.Rect, pal)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			i := (k + 3*x + 5*y + x*y) % 8
			if k >= 100 {
				i = k % 8
			}
			m.SetNRGBA(x, y, colour(i, f))
			g.SetColorIndex(x, y, uint8(i))
		}
	}
	var b bytes.Buffer
	switch f {
	case "png":
		must(png.Encode(&b, m))
	case "bmp":
		must(bmp.Encode(&b, m))
	case "tiff":
		must(tiff.Encode(&b, m, nil))
	case "gif":
		must(gif.Encode(&b, g, nil))
	case "jpeg":
		must(jpeg.Encode(&b, m, nil))
	case "webp":
		must(webp.Encode(&b, m, &webp.Options{Lossless: true}))
	}
	return append(make([]byte, 0, b.Len()+64), b.Bytes()...)
}

func told(b []byte) []string {
	m, f, err := im.Decode(bytes.NewReader(b))
	if err != nil {
		return []string{"not an image"}
	}
	if m.Bounds().Min != (im.Point{}) {
		return []string{"not at the origin"}
	}
	return []string{f, fmt.Sprint(m.Bounds().Dx()), fmt.Sprint(m.Bounds().Dy())}
}

func pixels(b []byte) []string {
	m, _, err := im.Decode(bytes.NewReader(b))
	must(err)
	r := []string{}
	for y := 0; y < m.Bounds().Dy(); y++ {
		for x := 0; x < m.Bounds().Dx(); x++ {
			c := color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA)
			p := int(c.R)<<16 | int(c.G)<<8 | int(c.B)
			if n, ok := m.(*im.NRGBA); ok {
				c = n.NRGBAAt(x, y)
			}
			switch c.A {
			case 255:
				r = append(r, fmt.Sprint(p))
			case 128:
				r = append(r, fmt.Sprint(p+1<<24))
			default:
				r = append(r, "alpha "+fmt.Sprint(c.A))
			}
		}
	}
	return r
}

// options reads the names and numbers at the end of an operation.
func options(op []string, w, h int) *image.Options {
	o := &image.Options{}
	nums := func(i, n int) (r []int) {
		for _, s := range op[i+1 : i+1+n] {
			r = append(r, num(s))
		}
		return
	}
	for i, s := range op {
		switch s {
		case "gray":
			o.Gray = true
		case "invert":
			o.Invert = true
		case "fliph":
			o.FlipH = true
		case "flipv":
			o.FlipV = true
		case "rotate":
			o.Rotate = num(op[i+1])
		case "blur":
			o.Blur = 1.5
		case "anchor":
			o.CropAnchor = nums(i, 4)
			o.CropAnchor[2] %= w
			o.CropAnchor[3] %= h
		case "side":
			o.CropSide = nums(i, 4)
		case "upper":
			o.ScaleUpper = nums(i, 3)
		case "lower":
			o.ScaleLower = nums(i, 3)
		}
	}
	if len(op) == 0 {
		return nil
	}
	return o
}

func (x *obj) result(b []byte, err error, junk bool) []string {
	if err != nil {
		return []string{"err"}
	}
	if junk {
		if bytes.Equal(b, x.cur) {
			return []string{"same"}
		}
		return []string{"other bytes"}
	}
	x.cur = x.keep(b)
	return told(x.cur)
}

var filters = map[string]image.ResampleFilter{"near": image.NearestNeighbor, "box": image.Box, "linear": image.Linear, "lanczos": image.Lanczos, "cubic": image.CatmullRom, "gauss": image.Gaussian, "odd": 99}

func apply(o any, op []string) []string {
	x := o.(*obj)
	m, f, err := im.Decode(bytes.NewReader(x.cur))
	junk := err != nil
	switch op[0] {
	case "new":
		x.cur = x.keep(source(op[1], num(op[2]), num(op[3]), num(op[4])))
		return told(x.cur)
	case "junk":
		x.cur = x.keep([]byte("\x89PNG\r\n\x1a\nnot an image at all"))
		return []string{"ok"}
	case "enc":
		w, h := 1, 1
		if !junk {
			w, h = m.Bounds().Dx(), m.Bounds().Dy()
		}
		op := op[:len(op):len(op)]
		t := &image.Image{ResizeFilter: filters[op[4]]}
		var opt *image.Options
		if len(op) > 6 || op[5] != "" {
			opt = options(op[6:], w, h)
			if opt == nil {
				opt = &image.Options{}
			}
			opt.Format = op[5]
		}
		b, err := t.Encode(x.cur, num(op[1]), num(op[2]), image.Mode(num(op[3])), opt)
		return x.result(b, err, junk)
	case "resize":
		b, err := (&image.Image{}).Resize(x.cur, num(op[1]), num(op[2]), image.Mode(num(op[3])))
		return x.result(b, err, junk || op[1] == "0" && op[2] == "0")
	case "quality":
		b, err := image.QualityByBinary(x.cur, num(op[1]))
		return x.result(b, err, false)
	case "ico":
		b, err := (&image.Image{}).Encode(x.cur, 0, 0, 0, &image.Options{Format: "ico"})
		if junk {
			return x.result(b, err, true)
		}
		must(err)
		return strings.Fields(string(b))[1:]
	case "look":
		if junk {
			return []string{"same"}
		}
		return append([]string{f, fmt.Sprint(m.Bounds().Dx()), fmt.Sprint(m.Bounds().Dy())}, pixels(x.cur)...)
	case "still":
		for _, k := range x.kept {
			if string(k.b) != k.copy {
				return []string{"changed"}
			}
		}
		return []string{"ok"}
	case "gif":
		return animation(num(op[1]), num(op[2]), num(op[3]), num(op[4]), num(op[5]), x)
	}
	panic("op " + op[0])
}

// animation resizes an animation of n frames of one colour each, every third of them on a part of the canvas only.
func animation(n, w, h, tw, th int, x *obj) []string {
	g := &gif.GIF{LoopCount: n - 1}
	pal := color.Palette{color.NRGBA{}}
	for i := range palette {
		pal = append(pal, rgb(palette[i]))
	}
	for i := 0; i < n; i++ {
		r := im.Rect(0, 0, w, h)
		if i%3 == 2 {
			r = im.Rect(w/2, h/2, w, h)
		}
		p := im.NewPaletted(r, pal)
		for j := range p.Pix {
			p.Pix[j] = uint8(1 + i%8)
		}
		g.Image = append(g.Image, p)
		g.Delay = append(g.Delay, 3+7*i)
		g.Disposal = append(g.Disposal, byte(1+i%3))
	}
	var b bytes.Buffer
	must(gif.EncodeAll(&b, g))
	src := x.keep(b.Bytes())
	out, err := image.ResizeGIF(src, tw, th)
	if err != nil {
		return []string{"err"}
	}
	x.keep(out)
	a, err := gif.DecodeAll(bytes.NewReader(out))
	if err != nil {
		return []string{"not an animation"}
	}
	res := "kept"
	if n > 1 && a.LoopCount != g.LoopCount {
		res = fmt.Sprint("loop ", a.LoopCount)
	}
	for i, f := range a.Image {
		if i < n && (a.Delay[i] != g.Delay[i] || a.Disposal[i] != g.Disposal[i]) {
			res = fmt.Sprint("frame ", i, " ", a.Delay[i], " ", a.Disposal[i])
		}
		if f.Bounds() != im.Rect(0, 0, a.Config.Width, a.Config.Height) {
			res = "frames of different sizes"
		}
		if i%3 != 2 {
			for y := 0; y < f.Bounds().Dy(); y++ {
				for x := 0; x < f.Bounds().Dx(); x++ {
					if color.NRGBAModel.Convert(f.At(x, y)) != color.Color(rgb(palette[i%8])) {
						res = fmt.Sprint("frame ", i, " has ", f.At(x, y))
					}
				}
			}
		}
	}
	return []string{"ok", fmt.Sprint(len(a.Image)), fmt.Sprint(a.Config.Width), fmt.Sprint(a.Config.Height), res}
}

var formats = []string{"png", "bmp", "tiff", "gif", "jpeg", "webp"}

func pick(rng *rand.Rand, s ...string) string { return s[rng.Intn(len(s))] }

func gen(rng *rand.Rand, cfg map[string]string) []string {
	n := func(lo, hi int) string { return fmt.Sprint(lo + rng.Intn(hi-lo+1)) }
	switch rng.Intn(12) {
	case 0, 1:
		k := n(0, 7)
		if rng.Intn(4) == 0 {
			k = n(100, 106)
		}
		f := pick(rng, formats...)
		if rng.Intn(2) == 0 {
			f = "png"
		}
		return []string{"new", f, n(1, 12), n(1, 12), k}
	case 2:
		if rng.Intn(3) == 0 {
			return []string{pick(rng, "ico", "still", "junk")}
		}
		return []string{"still"}
	case 3:
		return []string{"quality", n(0, 25)}
	case 4:
		if rng.Intn(2) == 0 {
			return []string{"new", "png", n(10, 160), n(10, 160), "101"}
		}
		return []string{"gif", n(1, 5), n(8, 40), n(8, 40), pick(rng, "0", n(4, 50)), pick(rng, "0", n(4, 50))}
	case 5:
		return []string{"resize", n(0, 14), n(0, 14), n(0, 6)}
	case 6, 7:
		return []string{"look"}
	}
	op := []string{"enc", "0", "0", n(0, 6), pick(rng, "near", "near", "box", "linear", "lanczos", "cubic", "gauss", "odd"), ""}
	if rng.Intn(3) == 0 {
		op[1], op[2] = n(0, 14), n(0, 14)
	}
	if rng.Intn(3) == 0 {
		op[5] = pick(rng, "png", "png", "bmp", "tiff", "tif", "webp", "gif", "jpg", "jpeg", "psd", "PNG")
	}
	for rng.Intn(5) > 0 {
		var o []string
		switch rng.Intn(10) {
		case 0:
			o = []string{"gray"}
		case 1:
			o = []string{"invert"}
		case 2:
			o = []string{"fliph"}
		case 3:
			o = []string{"flipv"}
		case 4, 5:
			o = []string{"rotate", pick(rng, "90", "180", "270", "360", "-90", "450", "-180")}
		case 6:
			o = []string{"anchor", n(1, 10), n(1, 10), n(0, 12), n(0, 12)}
		case 7:
			o = []string{"side", n(1, 10), n(1, 10), n(-2, 12), n(-2, 12)}
		case 8:
			o = []string{pick(rng, "upper", "lower"), n(0, 12), n(0, 12), n(40, 150)}
		case 9:
			if rng.Intn(3) > 0 {
				continue
			}
			o = []string{"blur"}
		}
		seen := false
		for _, s := range op[6:] {
			seen = seen || s == o[0]
		}
		if !seen {
			op = append(op, o...)
		}
	}
	return op
}

func main() {
	drv.Main(&drv.Component{New: func(map[string]string) any { return &obj{cur: []byte("junk")} }, Apply: apply, Gen: gen})
}
