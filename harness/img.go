package main

import (
	"bytes"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math/rand"
)

// Img is an image with what is known about it
type Img struct {
	data []byte
	ok   bool
	w, h int
	ext  string
}

func mkImg(w, h int, format string, tint uint8) *Img {
	m := image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.White, color.RGBA{tint, 255 - tint, tint / 2, 255}})
	for i := range m.Pix {
		if (i+int(tint))%7 == 0 {
			m.Pix[i] = 1
		}
	}
	var b bytes.Buffer
	var err error
	switch format {
	case "png":
		err = png.Encode(&b, m)
	case "jpeg":
		err = jpeg.Encode(&b, m, &jpeg.Options{Quality: 5})
	case "gif":
		err = gif.Encode(&b, m, nil)
	case "webp":
		b.Write(webp(w, h, tint))
	}
	if err != nil {
		panic(err)
	}
	return &Img{b.Bytes(), true, w, h, format}
}

// twin gives the same image with one more byte, so that images of equal size and
// equal beginning arise
func twin(im *Img, b byte) *Img {
	t := *im
	t.data = append(append([]byte{}, im.data...), b)
	return &t
}

// webp makes a VP8X file header with the given canvas
func webp(w, h int, tint uint8) []byte {
	w--
	h--
	p := []byte{0, 0, 0, 0, byte(w), byte(w >> 8), byte(w >> 16), byte(h), byte(h >> 8), byte(h >> 16)}
	b := []byte("RIFF")
	n := 4 + 8 + len(p) + 8 + 2
	b = append(b, byte(n), byte(n>>8), 0, 0)
	b = append(b, "WEBPVP8X"...)
	b = append(b, byte(len(p)), 0, 0, 0)
	b = append(b, p...)
	b = append(b, "EXIF"...)
	b = append(b, 2, 0, 0, 0, tint, 0)
	return b
}

var imgCache = map[[4]int]*Img{}

// genImg gives an image; small sets of contents so that equal ones recur
func genImg(r *rand.Rand) *Img {
	f := r.Intn(10)
	format := "png"
	switch {
	case f < 2:
		format = "jpeg"
	case f < 4:
		format = "gif"
	case f < 5:
		format = "webp"
	}
	var w, h int
	switch r.Intn(6) {
	case 0:
		w, h = 1+r.Intn(400), 1+r.Intn(400)
	case 1:
		w, h = 1, 1
	case 2:
		w, h = 12, 10
	case 3:
		w, h = 13, 10
	case 4:
		w, h = 6, 5
	default:
		w, h = 1+r.Intn(20), 1+r.Intn(20)
	}
	k := [4]int{w, h, f, r.Intn(3)}
	if im := imgCache[k]; im != nil {
		return im
	}
	im := twin(mkImg(w, h, format, uint8(k[3]%2*80)), byte(k[3]))
	imgCache[k] = im
	return im
}

// badImg gives something that is not an image
func badImg(r *rand.Rand) *Img {
	switch r.Intn(6) {
	case 0:
		return &Img{data: []byte{}}
	case 1:
		return &Img{data: []byte("not an image at all")}
	case 2:
		return &Img{data: []byte("\x89PNG\r\n\x1a\n")}
	case 3: // no height
		g := append([]byte{}, mkImg(3, 3, "gif", 1).data...)
		g[8], g[9] = 0, 0
		return &Img{data: g}
	case 4:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		if len(b) > 0 {
			b[0] = 'X'
		}
		return &Img{data: b}
	}
	return &Img{data: []byte("GIF89a")}
}
