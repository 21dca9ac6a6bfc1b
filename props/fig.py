"""What a figure shows: everything it hands to a renderer, in drawing order (no judgement here)."""
import math

def recorder(fig):
    import numpy as np
    from matplotlib.backends.backend_agg import RendererAgg
    from matplotlib.backend_bases import RendererBase
    from matplotlib.colors import to_hex

    def fc(c): return to_hex(c[:3]) if c is not None and len(c) and (len(c) < 4 or c[3] > 0) else ''
    class Recorder(RendererAgg):
        def __init__(self, *a):
            super().__init__(*a)
            self.items, self.groups = [], []
            for n in ('draw_path_collection', 'draw_quad_mesh', 'draw_gouraud_triangles', 'draw_image', 'draw_markers'): self.__dict__.pop(n, None)
        def _add(self, gc, **k):
            c = gc.get_clip_rectangle() if gc is not None else None
            self.items.append(dict(k, rgb=to_hex(gc.get_rgb()[:3]) if gc is not None else '', lw=float(gc.get_linewidth()) if gc is not None else 0., legend='legend' in self.groups,
                                   clip=[float(v) for v in c.extents] if c is not None else [], dash=gc.get_dashes()[1] is not None if gc is not None else False))
        def open_group(self, s, gid=None): self.groups.append(s)
        def close_group(self, s): self.groups.pop()
        def draw_path(self, gc, path, transform, rgbFace=None):
            p = transform.transform_path(path)
            self._add(gc, kind='path', v=[[float(a), float(b)] for a, b in p.vertices], closed=p.codes is not None and 79 in p.codes, face=fc(rgbFace))
        def _marks(self, gc, marker, offsets, rgbFace):
            if len(offsets) == 1 and not any(offsets[0]):      # matplotlib draws a collection of one path this way
                self._add(gc, kind='path', v=[[float(a), float(b)] for a, b in marker.vertices], closed=marker.codes is not None and 79 in marker.codes, face=fc(rgbFace))
                return
            self._add(gc, kind='marks', v=[[float(a), float(b)] for a, b in offsets if math.isfinite(a) and math.isfinite(b)], face=fc(rgbFace),
                      shape=[[round(float(a), 3), round(float(b), 3)] for a, b in marker.vertices])
        def draw_markers(self, gc, marker_path, marker_trans, path, trans, rgbFace=None):
            self._marks(gc, marker_trans.transform_path(marker_path), trans.transform_path(path).vertices, rgbFace)
        def draw_path_collection(self, gc, master_transform, paths, all_transforms, offsets, offset_trans, facecolors, edgecolors, *a, **k):
            if len(offsets) > 1 and len(paths) == 1 and len(all_transforms) <= 1:
                gc0 = self.new_gc(); gc0.copy_properties(gc)
                if len(edgecolors): gc0.set_foreground(edgecolors[0], isRGBA=True)
                self._marks(gc0, paths[0], offset_trans.transform(offsets), facecolors[0] if len(facecolors) else None)
            else: RendererBase.draw_path_collection(self, gc, master_transform, paths, all_transforms, offsets, offset_trans, facecolors, edgecolors, *a, **k)
        def draw_quad_mesh(self, *a, **k): pass
        def draw_gouraud_triangles(self, *a, **k): pass
        def draw_image(self, gc, x, y, im, transform=None): self._add(gc, kind='image', v=[[float(x), float(y)]], shape=list(np.shape(im)))
        def draw_text(self, gc, x, y, s, prop, angle, ismath=False, mtext=None):
            self._add(gc, kind='text', v=[[float(x), float(self.height - y)]], s=s, angle=float(angle), size=float(prop.get_size_in_points()))
        def draw_mathtext(self, gc, x, y, s, prop, angle): self.draw_text(gc, x, y, s, prop, angle)
    r = Recorder(int(math.ceil(fig.bbox.width)), int(math.ceil(fig.bbox.height)), fig.dpi)
    fig.draw(r)
    return r.items

def inside(ax, it):
    """does this item belong to (is it clipped to) the axes ax?"""
    return len(it['clip']) == 4 and all(abs(a - b) < .51 for a, b in zip(it['clip'], ax.bbox.extents))

def todata(ax, v, logy=True):
    """display positions as axis positions (x as on the axis, y in decades)"""
    import numpy as np
    if not len(v): return []
    q = ax.transData.inverted().transform(np.array(v, dtype=float))
    return [[float(a), float(math.log10(b)) if b > 0 else -1e9] if logy else [float(a), float(b)] for a, b in q if math.isfinite(a) and math.isfinite(b)]
