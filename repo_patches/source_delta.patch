From 9a70a9bdcba8aca58cfbd392702d307021d2a7a0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 01/23] fix: translate exceptions thrown by the native renderer
 instead of aborting

The extern declarations had no exception specification, so a rejected scene
(for example a backward pass with backface_culling=False) or a failed
allocation called std::terminate and killed the Python process.
---
 deodr/differentiable_renderer_cython.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index f274249..d6b3d2c 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -41,8 +41,8 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 		bool strict_edge
 		bool perspective_correct
 		bool integer_pixel_centers
-	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer)
-	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b)
+	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer) except +
+	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 1041224c44a1812c99b29c2123f1fd3494cfe650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 02/23] fix: do not modify the caller's image_b and
 err_buffer_b in the backward pass

The native backward pass zeroes and rescales the incoming gradients while it
works. A second backward pass with the same array, or another consumer of the
same gradient (autograd), then saw corrupted values.
---
 deodr/differentiable_renderer_cython.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index d6b3d2c..b2a5ea4 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -368,6 +368,9 @@ def renderSceneBCpp(scene,
 	cdef double* err_buffer_b_ptr  =  NULL	
 	cdef double* image_ptr  =  <double*> image.data
 	
+	# the native code uses the incoming gradients as working memory, so it gets copies
+	cdef np.ndarray[double,ndim = 3,mode = "c"] image_b_c
+	cdef np.ndarray[double,ndim = 2,mode = "c"] err_buffer_b_c
 	cdef double* image_b_ptr  =  NULL
 	cdef double* z_buffer_ptr  =  <double*> z_buffer.data
 	
@@ -384,7 +387,8 @@ def renderSceneBCpp(scene,
 			assert obs.shape[1]  ==  width 
 	
 		err_buffer_ptr = <double*>err_buffer.data
-		err_buffer_b_ptr = <double*>err_buffer_b.data
+		err_buffer_b_c = err_buffer_b.copy()
+		err_buffer_b_ptr = <double*>err_buffer_b_c.data
 		obs_ptr = <double*>obs.data
 		
 		if err_buffer_ptr  ==  NULL:
@@ -398,7 +402,8 @@ def renderSceneBCpp(scene,
 			assert (not(image_b is None))
 			assert image_b.shape[0]  ==  height 
 			assert image_b.shape[1]  ==  width 
-		image_b_ptr  =  <double*> image_b.data
+		image_b_c = image_b.copy()
+		image_b_ptr  =  <double*> image_b_c.data
 		if image_b_ptr  ==  NULL:
 			raise BaseException('image_b_ptr is NULL')
 	
-- 
2.43.0


From 16d8ae41a2a437080d24b57ff153212a91ca65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 03/23] fix: make the PyTorch backward pass depend only on its
 own forward pass

It used the scene rendered last (wrong gradients, or an assertion, as soon as
several views were rendered before calling backward), modified the image kept
for it (a second backward over a retained graph gave other gradients), used a
constant sigma and rejected non contiguous incoming gradients.
---
 .../differentiable_renderer_pytorch.py        | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 1ce09c2..667fa34 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -48,11 +48,13 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         nb_color_channels = colors.shape[1]
         image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
         z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
-        ctx.scene = scene
+        # scene.scene_2d and scene.sigma may change before the backward pass (other views rendered in between)
+        ctx.scene_2d = scene.scene_2d
+        ctx.sigma = scene.sigma
         scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
         scene.colors = colors.detach().numpy()
-        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, 1, image, z_buffer)
+        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, ctx.sigma, image, z_buffer)
         ctx.save_for_backward(ij, colors)
         ctx.image = image.copy()
         # making a copy to keep the antializaed image for visualization ,
@@ -64,16 +66,19 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
     def backward(ctx: Any, *grad_outputs: Any) -> Any:
         assert len(grad_outputs) == 1
         image_b = grad_outputs[0]
-        scene = ctx.scene
-        scene.scene_2d.uv_b = np.zeros(scene.scene_2d.uv.shape)
-        scene.scene_2d.ij_b = np.zeros(scene.scene_2d.ij.shape)
-        scene.scene_2d.shade_b = np.zeros(scene.scene_2d.shade.shape)
-        scene.scene_2d.colors_b = np.zeros(scene.scene_2d.colors.shape)
-        scene.scene_2d.texture_b = np.zeros(scene.scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
+        scene_2d = ctx.scene_2d
+        scene_2d.uv_b = np.zeros(scene_2d.uv.shape)
+        scene_2d.ij_b = np.zeros(scene_2d.ij.shape)
+        scene_2d.shade_b = np.zeros(scene_2d.shade.shape)
+        scene_2d.colors_b = np.zeros(scene_2d.colors.shape)
+        scene_2d.texture_b = np.zeros(scene_2d.texture.shape)
+        # the native code undoes the antialiasing in the image it is given and needs contiguous arrays
+        differentiable_renderer_cython.renderSceneBCpp(
+            scene_2d, ctx.sigma, ctx.image.copy(), ctx.z_buffer, image_b.contiguous().numpy()
+        )
         return (
-            torch.as_tensor(scene.scene_2d.ij_b),
-            torch.as_tensor(scene.scene_2d.colors_b),
+            torch.as_tensor(scene_2d.ij_b),
+            torch.as_tensor(scene_2d.colors_b),
             None,
         )
 
-- 
2.43.0


From 56411d7213c0cef49d5b98baa5c604bcbb3ffaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 04/23] fix: accumulate the texture gradient instead of
 overwriting it

bilinear_sample_B assigned the contribution of the pixel processed last to the
texels it touches, dropping those of all the other pixels.
---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9140bfb..55f050d 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -618,10 +618,10 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		e_B[0] += t1_B * (I[indx10 + k] - I[indx00 + k]);
 		e_B[0] += t2_B * (I[indx11 + k] - I[indx01 + k]);
 
-		I_B[indx00 + k] = (1 - e[0]) * (1 - e[1]) * A_B[k];
-		I_B[indx10 + k] = e[0] * (1 - e[1]) * A_B[k];
-		I_B[indx01 + k] = (1 - e[0]) * e[1] * A_B[k];
-		I_B[indx11 + k] = e[0] * e[1] * A_B[k];
+		I_B[indx00 + k] += (1 - e[0]) * (1 - e[1]) * A_B[k];
+		I_B[indx10 + k] += e[0] * (1 - e[1]) * A_B[k];
+		I_B[indx01 + k] += (1 - e[0]) * e[1] * A_B[k];
+		I_B[indx11 + k] += e[0] * e[1] * A_B[k];
 	}
 	for (int k = 0; k < 2; k++)
 	{
-- 
2.43.0


From d98833eb201134f96740e5fe6bd8e2f38a0385d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 05/23] fix: meshes created with compute_adjacencies=False had
 no adjacencies

The adjacencies property, and everything that uses it lazily (normals,
silhouettes, volume, rendering), raised AttributeError because the cache was
never initialised.
---
 deodr/triangulated_mesh.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 25806e8..bfc1b6d 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -188,6 +188,7 @@ class TriMesh:
 
         self._face_normals: Optional[np.ndarray] = None
         self._vertex_normals: Optional[np.ndarray] = None
+        self._adjacencies: Optional[TriMeshAdjacencies] = None
         self.clockwise = clockwise
 
         self._vertices_b = np.zeros((self.nb_vertices, 3))
@@ -200,7 +201,11 @@ class TriMesh:
         self._adjacencies = TriMeshAdjacencies(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
         if self._adjacencies.is_closed:
-            self.check_orientation()
+            try:
+                self.check_orientation()
+            except BaseException:
+                self._adjacencies = None  # reject the mesh again the next time the adjacencies are needed
+                raise
 
     @property
     def vertices(self) -> np.ndarray:
@@ -214,6 +219,7 @@ class TriMesh:
     def adjacencies(self) -> TriMeshAdjacencies:
         if self._adjacencies is None:
             self.compute_adjacencies()
+        assert self._adjacencies is not None
         return self._adjacencies
 
     def set_vertices(self, vertices: np.ndarray) -> None:
@@ -229,7 +235,7 @@ class TriMesh:
         surfaces is a closed manifold. This is done by summing the volumes of the
         simplices formed by joining the origin and the vertices of each triangle.
         """
-        if not self._adjacencies.is_closed:
+        if not self.adjacencies.is_closed:
             raise (BaseException("The volume can only be computed for closed manifold surfaces"))
         return (
             (-1 if self.clockwise else 1)
-- 
2.43.0


From 755eb3a7832ff47d37b30bebe87699660f962ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 06/23] fix: keep the clockwise flag in PyTorch adjacencies and
 subdivided meshes

Normals, silhouettes and the orientation check of clockwise meshes were
computed as if they were counter clockwise. The PyTorch adjacencies also
ignored vertices that follow the last one used by a face.
---
 deodr/pytorch/triangulated_mesh_pytorch.py | 6 +++---
 deodr/triangulated_mesh.py                 | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index a7fa043..9e87861 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -22,8 +22,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     Unlike the TriMesh class there are no vertices stored in this class.
     """
 
-    def __init__(self, faces: np.ndarray, clockwise: bool = False):
-        super().__init__(faces, clockwise)
+    def __init__(self, faces: np.ndarray, clockwise: bool = False, nb_vertices: Optional[int] = None):
+        super().__init__(faces, clockwise, nb_vertices)
         self.faces_torch = torch.LongTensor(faces)
         i = self.faces_torch.flatten()
         j = torch.LongTensor(np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten())
@@ -76,7 +76,7 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
         )
 
     def compute_adjacencies(self) -> None:
-        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces)
+        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index bfc1b6d..8db95b3 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -563,6 +563,7 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     return ColoredTriMesh(
         vertices=new_vertices,
         faces=new_faces,
+        clockwise=mesh.clockwise,
         colors=new_colors,
         nb_colors=mesh.nb_colors,
     )
-- 
2.43.0


From a8fa23dbf3093e3122516d2053092a3657f9c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 07/23] fix: multi frame fitting compared one image row with
 the whole frame

render(idframe) returns the image of that frame; energy_data indexed it again
and broadcast row number idframe over the observed image.
---
 deodr/mesh_fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 9e34612..724594c 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -536,11 +536,11 @@ class MeshRGBFitterWithPoseMultiFrame:
         for idframe in range(self.nb_frames):
             image = self.render(idframe=idframe)
 
-            diff_image = np.sum((image[idframe] - self.mesh_images[idframe]) ** 2, axis=2)
+            diff_image = np.sum((image - self.mesh_images[idframe]) ** 2, axis=2)
             images.append(image)
             diff_images.append(diff_image)
 
-            image_b = coef_data * 2 * (image[idframe] - self.mesh_images[idframe])
+            image_b = coef_data * 2 * (image - self.mesh_images[idframe])
             energy_data_image = coef_data * np.sum(diff_image)
             energy_datas.append(energy_data_image)
             self.render_backward(image_b)
-- 
2.43.0


From f774b8fd109bbfe65dd45ee41b61053d9fb33bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 08/23] fix: reset the iteration counter of the multi frame
 fitter

step() switches behaviour after 500 iterations, so a fitter that had been reset
followed another trajectory than a new one.
---
 deodr/mesh_fitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 724594c..cecf547 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -447,6 +447,7 @@ class MeshRGBFitterWithPoseMultiFrame:
         self.speed_light_directional = np.zeros(self.light_directional.shape)
         self.speed_light_ambient = 0.0
         self.speed_mesh_color = np.zeros(self.mesh_color.shape)
+        self.iter = 0
 
     def set_images(self, mesh_images: List[np.ndarray], focal: Optional[float] = None) -> None:
         self.width = mesh_images[0].shape[1]
-- 
2.43.0


From 69270133534501b324b99a6f45ac8eb64b5ad73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 09/23] fix: MeshDepthFitter.render_backward modified the
 caller's depth_b

---
 deodr/mesh_fitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index cecf547..aa63d17 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -113,6 +113,7 @@ class MeshDepthFitter:
 
     def render_backward(self, depth_b: np.ndarray) -> None:
         self.scene.clear_gradients()
+        depth_b = depth_b.copy()  # the caller's gradient is left unchanged
         depth_b[self.depth_not_clipped < 0] = 0
         depth_b[self.depth_not_clipped > self.max_depth] = 0
         self.scene.render_depth_backward(depth_b)
-- 
2.43.0


From d203d807076dec81435d51da16fd89eb823fecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 10/23] fix: export_meshlab wrote its images in the current
 directory

The project file refers to them relative to its own directory. The viewport was
also given as height, width instead of width, height.
---
 deodr/meshlab_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index a962218..3bcaaad 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -56,7 +56,7 @@ def export_meshlab(
         vcg_camera.setAttribute("LensDistortion", "0 0")
         vcg_camera.setAttribute("CameraType", "0")
         vcg_camera.setAttribute("BinaryData", "0")
-        vcg_camera.setAttribute("ViewportPx", f"{image.shape[0]} {image.shape[1]}")
+        vcg_camera.setAttribute("ViewportPx", f"{image.shape[1]} {image.shape[0]}")
         rotation = np.diag([1, -1, -1, 1]).dot(mtx)
         rotation[:3, 3] = 0
         vcg_camera.setAttribute("RotationMatrix", " ".join([str(v) for v in rotation.flatten()]))
@@ -68,7 +68,7 @@ def export_meshlab(
         plane.setAttribute("semantic", "1")
         ml_raster.appendChild(plane)
 
-        imwrite(image_file, image.astype(np.uint8))
+        imwrite(os.path.join(os.path.dirname(filename), image_file), image.astype(np.uint8))
         ml_mesh.setAttribute("label", image_file)
         render_group.appendChild(ml_raster)
 
-- 
2.43.0


From ee3dfd07bf44c920672f0e63f95be56d1a87ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 11/23] fix: read_obj misread normals, texture coordinates,
 line continuations and relative indices

Lines starting with vn and vt were read as vertices, a trailing backslash never
matched because of the newline, and index -1 designated the last but one vertex.
---
 deodr/obj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 0651322..73ed605 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -23,10 +23,10 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         line = fid.readline()
         if not line:
             break
-        while line.endswith("\\"):
+        while line.endswith("\\\n"):
             # Remove backslash and concatenate with next line
-            line = line[:-1] + fid.readline()
-        if line.startswith("v"):
+            line = line[:-2] + " " + fid.readline()
+        if line.startswith(("v ", "v\t")):
             coord = line.split()
             coord.pop(0)
             node_counter += 1
@@ -41,7 +41,7 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
             for f in fields:
                 v = int(f.split("/")[0]) - 1
                 if v < 0:
-                    v = node_counter + v
+                    v = node_counter + v + 1
                 cleaned_fields.append(v)
             faces.append(np.array(cleaned_fields))
 
-- 
2.43.0


From b31c1cb4343393738a1e1961c8d1bd1eb2d8a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 12/23] fix: out of bounds texture reads with textures that are
 one texel high or wide

---
 C++/DifferentiableRenderer.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 55f050d..958de63 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -544,16 +544,18 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 		}
 		if (fp[k] > I_size[k] - 2)
 		{
-			fp[k] = I_size[k] - 2;
-			e[k] = 1;
+			// a texture that is a single texel wide has no right neighbour
+			fp[k] = I_size[k] > 1 ? I_size[k] - 2 : 0;
+			e[k] = I_size[k] > 1 ? 1 : 0;
 		}
 	}
 	// bilinear interpolation
 
+	int step[2] = {I_size[0] > 1, I_size[1] > 1};
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + step[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + step[1]));
+	int indx11 = sizeA * (fp[0] + step[0] + I_size[0] * (fp[1] + step[1]));
 
 	for (int k = 0; k < sizeA; k++)
 		A[k] = ((1 - e[0]) * I[indx00 + k] + e[0] * I[indx10 + k]) * (1 - e[1]) + ((1 - e[0]) * I[indx01 + k] + e[0] * I[indx11 + k]) * e[1];
@@ -589,17 +591,19 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		if (fp[k] > I_size[k] - 2)
 		{
 			out[k] = true;
-			fp[k] = I_size[k] - 2;
-			e[k] = 1;
+			// a texture that is a single texel wide has no right neighbour
+			fp[k] = I_size[k] > 1 ? I_size[k] - 2 : 0;
+			e[k] = I_size[k] > 1 ? 1 : 0;
 		}
 	}
 
 	// bilinear interpolation
 
+	int step[2] = {I_size[0] > 1, I_size[1] > 1};
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + step[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + step[1]));
+	int indx11 = sizeA * (fp[0] + step[0] + I_size[0] * (fp[1] + step[1]));
 
 	//for(int k=0;k<sizeA;k++)
 	//	A[k]=( (1-e[0])*I[indx00+k] + e[0]*I[indx10+k] )*(1-e[1])+( (1-e[0])*I[indx01+k] + e[0]*I[indx11+k] )*e[1];
-- 
2.43.0


From 71ba0b10b0113d92a299cd00fc55daa64511d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 13/23] fix: reject arrays whose sizes do not match what the
 native code accesses

Faces with two columns, a scene size that differs from the image size,
gradients with other channel counts, textured faces without texture, missing
error buffers or attributes replaced by another thread during the validation
made the native code read or write outside of the arrays. Images with more than
32767 lines or columns made its loops endless.
---
 C++/DifferentiableRenderer.h             |  7 ++
 deodr/differentiable_renderer_cython.pyx | 92 +++++++++++++++++++-----
 2 files changed, 83 insertions(+), 16 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 958de63..6252d67 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2704,6 +2704,9 @@ void checkSceneValid(Scene scene, bool has_derivatives)
 		if (scene.texture_b == NULL)
 			throw "scene.texture_b == NULL";
 	}
+	// the rasterization loops use short counters
+	if ((scene.height > 32767) || (scene.width > 32767) || (scene.nb_colors > (has_derivatives ? 32767 / 3 : 32767)))
+		throw "the image has too many lines, columns or channels";
 	for (int k = 0; k < scene.nb_triangles * 3; k++)
 	{
 		if (scene.faces[k] >= (unsigned int)scene.nb_vertices)
@@ -2923,6 +2926,10 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 	vector<double> signedAreaV;
 	signedAreaV.resize(scene.nb_triangles);
 
+	if (scene.perspective_correct)
+	{
+		throw "backward gradient propagation not supported yet with perspective_correct=True";
+	}
 	if (!scene.backface_culling)
 	{
 		throw "You have to use backface_culling true if you ant to compute gradients";
diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index b2a5ea4..84eaed8 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -124,17 +124,40 @@ def renderSceneCpp(scene,
 	cdef np.ndarray[np.uint8_t, mode = "c"] edgeflags_c  =  np.ascontiguousarray(scene.edgeflags.flatten(), dtype = np.uint8)
 	cdef np.ndarray[np.uint8_t, mode = "c"] textured_c  =  np.ascontiguousarray(scene.textured.flatten(), dtype = np.uint8)
 	cdef np.ndarray[np.uint8_t, mode = "c"] shaded_c  =  np.ascontiguousarray(scene.shaded.flatten(), dtype = np.uint8)
-	cdef np.ndarray[np.double_t, mode = "c"] texture_c  =  np.ascontiguousarray(scene.texture.flatten(), dtype = np.double)
+	texture = scene.texture
+	texture_shape = texture.shape
+	background_image = scene.background_image
+	cdef np.ndarray[np.double_t, mode = "c"] texture_c  =  np.ascontiguousarray(texture.flatten(), dtype = np.double)
 	cdef np.ndarray[np.double_t, mode = "c"] background_image_c;
 	cdef np.ndarray[np.double_t, mode = "c"] background_color_c;
 
-	if scene.background_image is not None:
-		background_image_c =  np.ascontiguousarray(scene.background_image.flatten(), dtype = np.double)
+	if background_image is not None:
+		background_image_c =  np.ascontiguousarray(background_image.flatten(), dtype = np.double)
 	else:
 		background_color_c =  np.ascontiguousarray(scene.background_color.flatten(), dtype = np.double)
 
-	scene_c.height = <int> scene.height
-	scene_c.width = <int> scene.width	
+	# the native code relies on these sizes: check the arrays that are actually given to it
+	assert scene.height == height
+	assert scene.width == width
+	assert faces_c.shape[0] == 3 * nb_triangles
+	assert faces_uv_c.shape[0] == 3 * nb_triangles
+	assert depths_c.shape[0] == nb_vertices
+	assert uv_c.shape[0] == 2 * nb_vertices_uv
+	assert ij_c.shape[0] == 2 * nb_vertices
+	assert shade_c.shape[0] == nb_vertices
+	assert colors_c.shape[0] == nb_colors * nb_vertices
+	assert edgeflags_c.shape[0] == 3 * nb_triangles
+	assert textured_c.shape[0] == nb_triangles
+	assert shaded_c.shape[0] == nb_triangles
+	assert texture_c.shape[0] == texture_shape[0] * texture_shape[1] * (nb_colors if texture_c.shape[0] > 0 else 1)
+	assert texture_c.shape[0] > 0 or not np.any(textured_c)
+	if background_image is not None:
+		assert background_image_c.shape[0] == height * width * nb_colors
+	else:
+		assert background_color_c.shape[0] == nb_colors
+
+	scene_c.height = height
+	scene_c.width = width
 	scene_c.nb_triangles = nb_triangles
 	scene_c.nb_vertices = nb_vertices
 	scene_c.backface_culling = scene.backface_culling
@@ -152,7 +175,7 @@ def renderSceneCpp(scene,
 	scene_c.shaded = <bool*> shaded_c.data
 	scene_c.texture = <double*> texture_c.data
 	
-	if scene.background_image is not None:	
+	if background_image is not None:	
 		scene_c.background_image = <double*> background_image_c.data
 		scene_c.background_color = NULL
 		if scene_c.background_image  ==  NULL:
@@ -164,8 +187,8 @@ def renderSceneCpp(scene,
 		if scene_c.background_color  ==  NULL:
 			raise BaseException('scene_c.background_color is NULL')
 
-	scene_c.texture_height = scene.texture.shape[0]
-	scene_c.texture_width = scene.texture.shape[1]
+	scene_c.texture_height = texture_shape[0]
+	scene_c.texture_width = texture_shape[1]
 	scene_c.strict_edge = scene.strict_edge
 	scene_c.perspective_correct = scene.perspective_correct
 	scene_c.integer_pixel_centers = scene.integer_pixel_centers
@@ -184,6 +207,8 @@ def renderSceneCpp(scene,
 
 	
 	if antialiase_error:
+		assert not(err_buffer is None)
+		assert not(obs is None)
 		assert err_buffer.shape[0]  ==  height 
 		assert err_buffer.shape[1]  ==  width
 		assert obs.shape[0]  ==  height 
@@ -308,20 +333,48 @@ def renderSceneBCpp(scene,
 	cdef np.ndarray[np.uint8_t, mode = "c"] edgeflags_c =  np.ascontiguousarray(scene.edgeflags.flatten(), dtype = np.uint8)
 	cdef np.ndarray[np.uint8_t, mode = "c"] textured_c =  np.ascontiguousarray(scene.textured.flatten(), dtype = np.uint8)
 	cdef np.ndarray[np.uint8_t, mode = "c"] shaded_c =  np.ascontiguousarray(scene.shaded.flatten(), dtype = np.uint8)
-	cdef np.ndarray[np.double_t, mode = "c"] texture_c =  np.ascontiguousarray(scene.texture.flatten(), dtype = np.double)
+	texture = scene.texture
+	texture_shape = texture.shape
+	background_image = scene.background_image
+	cdef np.ndarray[np.double_t, mode = "c"] texture_c  =  np.ascontiguousarray(texture.flatten(), dtype = np.double)
 	cdef np.ndarray[np.double_t, mode = "c"] texture_b_c =  np.ascontiguousarray(scene.texture_b.flatten(), dtype = np.double)
 
 	cdef np.ndarray[np.double_t, mode = "c"] background_image_c;
 	cdef np.ndarray[np.double_t, mode = "c"] background_color_c;
 
-	if scene.background_image is not None:
-		background_image_c =  np.ascontiguousarray(scene.background_image.flatten(), dtype = np.double)
+	if background_image is not None:
+		background_image_c =  np.ascontiguousarray(background_image.flatten(), dtype = np.double)
 	else:
 		background_color_c =  np.ascontiguousarray(scene.background_color.flatten(), dtype = np.double)
 
 
-	scene_c.height = <int> scene.height
-	scene_c.width = <int> scene.width
+	# the native code relies on these sizes: check the arrays that are actually given to it
+	assert scene.height == height
+	assert scene.width == width
+	assert faces_c.shape[0] == 3 * nb_triangles
+	assert faces_uv_c.shape[0] == 3 * nb_triangles
+	assert depths_c.shape[0] == nb_vertices
+	assert uv_c.shape[0] == 2 * nb_vertices_uv
+	assert ij_c.shape[0] == 2 * nb_vertices
+	assert shade_c.shape[0] == nb_vertices
+	assert colors_c.shape[0] == nb_colors * nb_vertices
+	assert edgeflags_c.shape[0] == 3 * nb_triangles
+	assert textured_c.shape[0] == nb_triangles
+	assert shaded_c.shape[0] == nb_triangles
+	assert texture_c.shape[0] == texture_shape[0] * texture_shape[1] * (nb_colors if texture_c.shape[0] > 0 else 1)
+	assert texture_c.shape[0] > 0 or not np.any(textured_c)
+	if background_image is not None:
+		assert background_image_c.shape[0] == height * width * nb_colors
+	else:
+		assert background_color_c.shape[0] == nb_colors
+	assert uv_b_c.shape[0] == 2 * nb_vertices_uv
+	assert ij_b_c.shape[0] == 2 * nb_vertices
+	assert shade_b_c.shape[0] == nb_vertices
+	assert colors_b_c.shape[0] == nb_colors * nb_vertices
+	assert texture_b_c.shape[0] == texture_c.shape[0]
+
+	scene_c.height = height
+	scene_c.width = width
 	scene_c.nb_triangles = nb_triangles
 	scene_c.nb_vertices = nb_vertices
 	scene_c.backface_culling = scene.backface_culling
@@ -344,7 +397,7 @@ def renderSceneBCpp(scene,
 	scene_c.texture = <double*> texture_c.data
 	scene_c.texture_b = <double*> texture_b_c.data
 
-	if scene.background_image is not None:	
+	if background_image is not None:	
 		scene_c.background_image = <double*> background_image_c.data
 		scene_c.background_color = NULL
 		if scene_c.background_image  ==  NULL:
@@ -356,8 +409,8 @@ def renderSceneBCpp(scene,
 		if scene_c.background_color  ==  NULL:
 			raise BaseException('scene_c.background_color is NULL')
 
-	scene_c.texture_height = scene.texture.shape[0]
-	scene_c.texture_width = scene.texture.shape[1]
+	scene_c.texture_height = texture_shape[0]
+	scene_c.texture_width = texture_shape[1]
 	scene_c.strict_edge = scene.strict_edge
 	scene_c.perspective_correct = scene.perspective_correct
 	scene_c.integer_pixel_centers = scene.integer_pixel_centers
@@ -381,10 +434,16 @@ def renderSceneBCpp(scene,
 	
 	if antialiase_error:
 		if check_valid:
+			assert not(err_buffer is None)
+			assert not(err_buffer_b is None)
+			assert not(obs is None)
 			assert err_buffer.shape[0]  ==  height 
 			assert err_buffer.shape[1]  ==  width 
 			assert obs.shape[0]  ==  height 
 			assert obs.shape[1]  ==  width 
+			assert obs.shape[2]  ==  nb_colors
+			assert err_buffer_b.shape[0]  ==  height
+			assert err_buffer_b.shape[1]  ==  width
 	
 		err_buffer_ptr = <double*>err_buffer.data
 		err_buffer_b_c = err_buffer_b.copy()
@@ -402,6 +461,7 @@ def renderSceneBCpp(scene,
 			assert (not(image_b is None))
 			assert image_b.shape[0]  ==  height 
 			assert image_b.shape[1]  ==  width 
+			assert image_b.shape[2]  ==  nb_colors
 		image_b_c = image_b.copy()
 		image_b_ptr  =  <double*> image_b_c.data
 		if image_b_ptr  ==  NULL:
-- 
2.43.0


From 19a6d25f769ad9d953ec028b5aa74130f87028e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 14/23] fix: OffscreenRenderer could keep the previous texture

Textures were identified by id(), which Python reuses once the previous array
is freed, and the id was recorded before the upload that may fail.
---
 deodr/opengl/moderngl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index e68fa0c..d9a912d 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -63,7 +63,7 @@ class OffscreenRenderer:
         )
         self.fbo = None
         self.texture = None
-        self.texture_id: int = 0
+        self.texture_array = None
 
     def set_scene(self, deodr_scene: Scene3D) -> None:
         assert deodr_scene.mesh is not None
@@ -117,14 +117,14 @@ class OffscreenRenderer:
         # Texture
         assert not texture.flags["WRITEABLE"]
         assert texture.ndim == 3
-        texture_id = id(texture)
-        if self.texture is None or self.texture_id != texture_id:
-            self.texture_id = id(texture)
+        # keeps the array alive: its id could be given to another texture otherwise
+        if self.texture is None or self.texture_array is not texture:
             self.texture = self.ctx.texture(
                 (texture.shape[1], texture.shape[0]),
                 texture.shape[2],
                 (texture * 255).astype(np.uint8).tobytes(),
             )
+            self.texture_array = texture
         # texture.build_mipmaps()
 
     def set_camera(self, camera: Camera) -> None:
-- 
2.43.0


From 1d6d0f2cbea7a1b03cc8b35d55be315407fdebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 15/23] fix: perspective-correct edges read a third vertex
 beyond the two given

---
 C++/DifferentiableRenderer.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 6252d67..d759ac7 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -437,6 +437,18 @@ inline void elementwise_prod_vec3(const double input1[3], const double input2[3]
 		ouput[i] = input1[i] * input2[i];
 }
 
+inline void elementwise_inverse_vec2(const double input[2], double ouput[2])
+{
+	for (int i = 0; i < 2; i++)
+		ouput[i] = 1 / input[i];
+}
+
+inline void elementwise_prod_vec2(const double input1[2], const double input2[2], double ouput[2])
+{
+	for (int i = 0; i < 2; i++)
+		ouput[i] = input1[i] * input2[i];
+}
+
 short int floor_div(double a, double b, int x_min, int x_max)
 {
 
@@ -1563,8 +1575,8 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		double inv_Zvertex[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
 		xy1_to_A = new double[3 * sizeA];
@@ -1806,11 +1818,11 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 	double T_inc = xy1_to_transp[0];
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		double ShadeVertex_div_z[3];
+		double inv_Zvertex[2];
+		double ShadeVertex_div_z[2];
 
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2093,10 +2105,10 @@ void rasterize_edge_textured_gouraud_error(double Vxy[][2], double Zvertex[2], d
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		double ShadeVertex_div_z[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		double inv_Zvertex[2];
+		double ShadeVertex_div_z[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2393,8 +2405,8 @@ void rasterize_edge_interpolated_error(double Vxy[][2], double Zvertex[2], T *Av
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		double inv_Zvertex[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		for (int i = 0; i < sizeA; i++)
 		{
-- 
2.43.0


From 0607c86ca862ffa4be4db21f4db2b7f975ae20f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 16/23] fix: the native wrappers read past the shape of arrays
 with too few dimensions

---
 deodr/differentiable_renderer_cython.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index 84eaed8..f951794 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -45,7 +45,6 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
-@cython.boundscheck(False)
 @cython.wraparound(False)
 def renderSceneCpp(scene, 
 		double sigma,
@@ -226,7 +225,6 @@ def renderSceneCpp(scene,
 
 	renderScene( scene_c,image_ptr, z_buffer_ptr, sigma, antialiase_error ,obs_ptr, err_buffer_ptr)
 	
-@cython.boundscheck(False)
 @cython.wraparound(False)	
 def renderSceneBCpp(scene, 
 		double sigma,
-- 
2.43.0


From d09d4fd045537370d120fea2188418e19db1fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 17/23] fix: vertices projected far outside of the image
 overflowed the rasterization bounds

---
 C++/DifferentiableRenderer.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index d759ac7..0a204a6 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -449,6 +449,16 @@ inline void elementwise_prod_vec2(const double input1[2], const double input2[2]
 		ouput[i] = input1[i] * input2[i];
 }
 
+inline short int saturate_short(double x)
+{
+	// conversion that keeps values far outside of the image outside, with some margin to add one
+	if (!(x > SHRT_MIN + 1))
+		return SHRT_MIN + 1;
+	if (x > SHRT_MAX - 1)
+		return SHRT_MAX - 1;
+	return (short int)x;
+}
+
 short int floor_div(double a, double b, int x_min, int x_max)
 {
 
@@ -692,39 +702,39 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// computing x bounds
 	if (strict_edge)
 	{
-		x_min = (short)floor(x_sorted[0]);
+		x_min = saturate_short(floor(x_sorted[0]));
 	}
 	else
 	{
-		x_min = (short)ceil(x_sorted[0]);
+		x_min = saturate_short(ceil(x_sorted[0]));
 	}
 
-	x_max = (short)floor(x_sorted[2]);
+	x_max = saturate_short(floor(x_sorted[2]));
 
 	// limit upper part
 	if (strict_edge)
 	{
 
-		y_begin[0] = (short)floor(y_sorted[0]) + 1;
+		y_begin[0] = saturate_short(floor(y_sorted[0])) + 1;
 	}
 	else
 	{
 
-		y_begin[0] = (short)ceil(y_sorted[0]);
+		y_begin[0] = saturate_short(ceil(y_sorted[0]));
 	}
 
-	y_end[0] = (short)floor(y_sorted[1]);
+	y_end[0] = saturate_short(floor(y_sorted[1]));
 
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+		y_begin[1] = saturate_short(floor(y_sorted[1])) + 1;
 	}
 	else
 	{
-		y_begin[1] = (short)ceil(y_sorted[1]);
+		y_begin[1] = saturate_short(ceil(y_sorted[1]));
 	}
-	y_end[1] = (short)floor(y_sorted[2]);
+	y_end[1] = saturate_short(floor(y_sorted[2]));
 
 	// set left_edge_id and right_edge_id
 
-- 
2.43.0


From 59065c99c335b16219e680a3d518e5e400645495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 18/23] fix: release the engine's scratch arrays when an
 allocation fails

---
 C++/DifferentiableRenderer.h | 118 +++++++++++++++++------------------
 1 file changed, 59 insertions(+), 59 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 0a204a6..77ec84b 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <string.h>
 #include <limits>
+#include <memory>
 #include <vector>
 #include <algorithm>
 
@@ -783,7 +784,8 @@ void rasterize_triangle_interpolated(double Vxy[][2], double Zvertex[3], T *Aver
 	get_triangle_stencil_equations(Vxy, bary_to_xy1, xy1_to_bary, edge_eq, strict_edge, x_min, x_max, y_begin, y_end, left_edge_id, right_edge_id);
 
 	// create matrices that map image coordinates to attributes A and depth z
-	xy1_to_A = new double[3 * sizeA];
+	std::unique_ptr<double[]> xy1_to_A_owner(new double[3 * sizeA]);
+	xy1_to_A = xy1_to_A_owner.get();
 
 	if (perspective_correct)
 	{
@@ -816,7 +818,6 @@ void rasterize_triangle_interpolated(double Vxy[][2], double Zvertex[3], T *Aver
 	{
 		render_part_interpolated(image, z_buffer, x_min, x_max, y_begin[k], y_end[k], strict_edge, xy1_to_A, xy1_to_Z, edge_eq[left_edge_id[k]], edge_eq[right_edge_id[k]], width, height, sizeA, perspective_correct);
 	}
-	delete[] xy1_to_A;
 }
 
 template <class T>
@@ -843,7 +844,8 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 
 	// create matrices that map image coordinates to attributes A and depth z
 
-	xy1_to_A = new double[3 * sizeA];
+	std::unique_ptr<double[]> xy1_to_A_owner(new double[3 * sizeA]);
+	xy1_to_A = xy1_to_A_owner.get();
 	for (short int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
@@ -854,7 +856,8 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 
 	mul_vect_matrix3x3(xy1_to_Z, Zvertex, xy1_to_bary);
 	double *xy1_to_A_B;
-	xy1_to_A_B = new double[3 * sizeA];
+	std::unique_ptr<double[]> xy1_to_A_B_owner(new double[3 * sizeA]);
+	xy1_to_A_B = xy1_to_A_B_owner.get();
 	for (short int i = 0; i < 3 * sizeA; i++)
 		xy1_to_A_B[i] = 0;
 
@@ -883,8 +886,6 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 		for (int d = 0; d < 2; d++)
 			Vxy_B[v][d] += bary_to_xy1_B[3 * d + v];
 
-	delete[] xy1_to_A;
-	delete[] xy1_to_A_B;
 }
 
 inline void get_xrange(int width, const double *left_eq, const double *right_eq, short int y, bool strict_edge, short int x_min, short int x_max, short int &x_begin, short int &x_end)
@@ -938,7 +939,8 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 	double Z0y;
 	short int x_begin, x_end;
 	double Z;
-	A0y = new double[sizeA];
+	std::unique_ptr<double[]> A0y_owner(new double[sizeA]);
+	A0y = A0y_owner.get();
 
 	if (y_begin < 0)
 	{
@@ -994,7 +996,6 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 			}
 		}
 	}
-	delete[] A0y;
 }
 
 inline void render_part_interpolated_B(double *image, double *image_B, double *z_buffer, int x_min, int x_max, int y_begin, int y_end, bool strict_edge, double *xy1_to_A, double *xy1_to_A_B, double *xy1_to_Z, double *left_eq, double *right_eq, int width, int height, int sizeA, bool perspective_correct)
@@ -1012,7 +1013,8 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 	}
 
 	//A0y  =new double[sizeA];
-	A0y_B = new double[sizeA];
+	std::unique_ptr<double[]> A0y_B_owner(new double[sizeA]);
+	A0y_B = A0y_B_owner.get();
 
 	if (y_begin < 0)
 	{
@@ -1062,7 +1064,6 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 
 		mul_matrixNx3_vect_B(sizeA, A0y_B, xy1_to_A_B, t);
 	}
-	delete[] A0y_B;
 }
 
 template <class T>
@@ -1192,7 +1193,8 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 	double *A;
 	double UV0y[2];
 
-	A = new double[sizeA];
+	std::unique_ptr<double[]> A_owner(new double[sizeA]);
+	A = A_owner.get();
 
 	if (y_begin < 0)
 	{
@@ -1280,7 +1282,6 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 			}
 		}
 	}
-	delete[] A;
 }
 
 inline void render_part_textured_gouraud_B(double *image, double *image_B, double *z_buffer, int x_min, int x_max, int y_begin, int y_end, bool strict_edge, double *xy1_to_UV, double *xy1_to_UV_B, double *xy1_to_L, double *xy1_to_L_B, double *xy1_to_Z, double *left_eq, double *right_eq, int width, int height, int sizeA, double *Texture, double *Texture_B, int *Texture_size, bool perspective_correct)
@@ -1295,8 +1296,10 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 	double UV0y[2];
 	double UV0y_B[2];
 
-	A = new double[sizeA];
-	A_B = new double[sizeA];
+	std::unique_ptr<double[]> A_owner(new double[sizeA]);
+	A = A_owner.get();
+	std::unique_ptr<double[]> A_B_owner(new double[sizeA]);
+	A_B = A_B_owner.get();
 
 	if (perspective_correct)
 	{
@@ -1385,8 +1388,6 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 
 		dot_prod_B(L0y_B, xy1_to_L_B, t);
 	}
-	delete[] A;
-	delete[] A_B;
 }
 
 void get_edge_stencil_equations(double Vxy[][2], int height, int width, double sigma, double xy1_to_bary[6], double xy1_to_transp[3], double ineq[12], int &y_begin, int &y_end, bool clockwise)
@@ -1573,7 +1574,9 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 	int y_begin, y_end;
 	double xy1_to_Z[3];
 	double *xy1_to_A;
-	double *A0y = new double[sizeA];
+	std::unique_ptr<double[]> xy1_to_A_owner;
+	std::unique_ptr<double[]> A0y_owner(new double[sizeA]);
+	double *A0y = A0y_owner.get();
 
 	get_edge_stencil_equations(Vxy, height, width, sigma, xy1_to_bary, xy1_to_transp, ineq, y_begin, y_end, clockwise);
 
@@ -1589,7 +1592,8 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
-		xy1_to_A = new double[3 * sizeA];
+		xy1_to_A_owner.reset(new double[3 * sizeA]);
+		xy1_to_A = xy1_to_A_owner.get();
 		for (short int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
@@ -1601,7 +1605,8 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 	else
 	{
 		mul_matrix(1, 2, 3, xy1_to_Z, Zvertex, xy1_to_bary);
-		xy1_to_A = new double[3 * sizeA];
+		xy1_to_A_owner.reset(new double[3 * sizeA]);
+		xy1_to_A = xy1_to_A_owner.get();
 		for (short int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
@@ -1670,8 +1675,6 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 			}
 		}
 	}
-	delete[] A0y;
-	delete[] xy1_to_A;
 }
 
 template <class Te>
@@ -1685,8 +1688,10 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 	int y_begin, y_end;
 	double xy1_to_Z[3];
 	double *xy1_to_A;
-	double *A0y = new double[sizeA];
-	double *A0y_B = new double[sizeA];
+	std::unique_ptr<double[]> A0y_owner(new double[sizeA]);
+	double *A0y = A0y_owner.get();
+	std::unique_ptr<double[]> A0y_B_owner(new double[sizeA]);
+	double *A0y_B = A0y_B_owner.get();
 
 	if (perspective_correct)
 	{
@@ -1704,9 +1709,11 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 
 	mul_matrix(1, 2, 3, xy1_to_Z, Zvertex, xy1_to_bary);
 
-	xy1_to_A = new double[3 * sizeA];
+	std::unique_ptr<double[]> xy1_to_A_owner(new double[3 * sizeA]);
+	xy1_to_A = xy1_to_A_owner.get();
 	double *xy1_to_A_B;
-	xy1_to_A_B = new double[3 * sizeA];
+	std::unique_ptr<double[]> xy1_to_A_B_owner(new double[3 * sizeA]);
+	xy1_to_A_B = xy1_to_A_B_owner.get();
 	for (short int i = 0; i < 3 * sizeA; i++)
 		xy1_to_A_B[i] = 0;
 
@@ -1798,10 +1805,6 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 
 	get_edge_stencil_equations_B(Vxy, Vxy_B, sigma, xy1_to_bary_B, xy1_to_transp_B, clockwise);
 
-	delete[] A0y;
-	delete[] A0y_B;
-	delete[] xy1_to_A;
-	delete[] xy1_to_A_B;
 }
 
 template <class Te>
@@ -1817,7 +1820,8 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 	double *A;
 	double UV0y[2];
 
-	A = new double[sizeA];
+	std::unique_ptr<double[]> A_owner(new double[sizeA]);
+	A = A_owner.get();
 
 	get_edge_stencil_equations(Vxy, height, width, sigma, xy1_to_bary, xy1_to_transp, ineq, y_begin, y_end, clockwise);
 
@@ -1929,7 +1933,6 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 			indx++;
 		}
 	}
-	delete[] A;
 }
 
 template <class Te>
@@ -1953,8 +1956,10 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 	{
 		throw "backward gradient propagation not supported yet with perspective_correct=True";
 	}
-	A = new double[sizeA];
-	A_B = new double[sizeA];
+	std::unique_ptr<double[]> A_owner(new double[sizeA]);
+	A = A_owner.get();
+	std::unique_ptr<double[]> A_B_owner(new double[sizeA]);
+	A_B = A_B_owner.get();
 
 	get_edge_stencil_equations(Vxy, height, width, sigma, xy1_to_bary, xy1_to_transp, ineq, y_begin, y_end, clockwise);
 
@@ -2085,8 +2090,6 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 
 	get_edge_stencil_equations_B(Vxy, Vxy_B, sigma, xy1_to_bary_B, xy1_to_transp_B, clockwise);
 
-	delete[] A;
-	delete[] A_B;
 }
 
 template <class T>
@@ -2103,7 +2106,8 @@ void rasterize_edge_textured_gouraud_error(double Vxy[][2], double Zvertex[2], d
 	double *A;
 	double UV0y[2];
 
-	A = new double[sizeA];
+	std::unique_ptr<double[]> A_owner(new double[sizeA]);
+	A = A_owner.get();
 
 	get_edge_stencil_equations(Vxy, height, width, sigma, xy1_to_bary, xy1_to_transp, ineq, y_begin, y_end, clockwise);
 
@@ -2219,7 +2223,6 @@ void rasterize_edge_textured_gouraud_error(double Vxy[][2], double Zvertex[2], d
 			indx++;
 		}
 	}
-	delete[] A;
 }
 
 template <class T>
@@ -2243,8 +2246,10 @@ void rasterize_edge_textured_gouraud_error_B(double Vxy[][2], double Vxy_B[][2],
 		throw "backward gradient propagation not supported yet with perspective_correct=True";
 	}
 
-	A = new double[sizeA];
-	A_B = new double[sizeA];
+	std::unique_ptr<double[]> A_owner(new double[sizeA]);
+	A = A_owner.get();
+	std::unique_ptr<double[]> A_B_owner(new double[sizeA]);
+	A_B = A_B_owner.get();
 
 	get_edge_stencil_equations(Vxy, height, width, sigma, xy1_to_bary, xy1_to_transp, ineq, y_begin, y_end, clockwise);
 
@@ -2389,8 +2394,6 @@ void rasterize_edge_textured_gouraud_error_B(double Vxy[][2], double Vxy_B[][2],
 
 	get_edge_stencil_equations_B(Vxy, Vxy_B, sigma, xy1_to_bary_B, xy1_to_transp_B, clockwise);
 
-	delete[] A;
-	delete[] A_B;
 }
 
 template <class T>
@@ -2402,8 +2405,10 @@ void rasterize_edge_interpolated_error(double Vxy[][2], double Zvertex[2], T *Av
 	double ineq[12];
 	int y_begin, y_end;
 	double xy1_to_Z[3];
-	double *xy1_to_A = new double[3 * sizeA];
-	double *A0y = new double[sizeA];
+	std::unique_ptr<double[]> xy1_to_A_owner(new double[3 * sizeA]);
+	double *xy1_to_A = xy1_to_A_owner.get();
+	std::unique_ptr<double[]> A0y_owner(new double[sizeA]);
+	double *A0y = A0y_owner.get();
 
 	get_edge_stencil_equations(Vxy, height, width, sigma, xy1_to_bary, xy1_to_transp, ineq, y_begin, y_end, clockwise);
 
@@ -2499,8 +2504,6 @@ void rasterize_edge_interpolated_error(double Vxy[][2], double Zvertex[2], T *Av
 		}
 	}
 
-	delete[] A0y;
-	delete[] xy1_to_A;
 }
 
 template <class T>
@@ -2513,10 +2516,14 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 	int y_begin, y_end;
 	double xy1_to_Z[3];
 
-	double *A0y = new double[sizeA];
-	double *A0y_B = new double[sizeA];
-	double *xy1_to_A = new double[3 * sizeA];
-	double *xy1_to_A_B = new double[3 * sizeA];
+	std::unique_ptr<double[]> A0y_owner(new double[sizeA]);
+	double *A0y = A0y_owner.get();
+	std::unique_ptr<double[]> A0y_B_owner(new double[sizeA]);
+	double *A0y_B = A0y_B_owner.get();
+	std::unique_ptr<double[]> xy1_to_A_owner(new double[3 * sizeA]);
+	double *xy1_to_A = xy1_to_A_owner.get();
+	std::unique_ptr<double[]> xy1_to_A_B_owner(new double[3 * sizeA]);
+	double *xy1_to_A_B = xy1_to_A_B_owner.get();
 
 	if (perspective_correct)
 	{
@@ -2637,10 +2644,6 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 
 	get_edge_stencil_equations_B(Vxy, Vxy_B, sigma, xy1_to_bary_B, xy1_to_transp_B, clockwise);
 
-	delete[] A0y;
-	delete[] A0y_B;
-	delete[] xy1_to_A;
-	delete[] xy1_to_A_B;
 }
 
 void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin, int &x_end)
@@ -3084,9 +3087,11 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 				}
 		}
 
+	std::unique_ptr<double[]> image_b_owner;
 	if (antialiaseError)
 	{
-		image_b = new double[scene.width * scene.height * scene.nb_colors];
+		image_b_owner.reset(new double[scene.width * scene.height * scene.nb_colors]);
+		image_b = image_b_owner.get();
 		for (int k = 0; k < scene.width * scene.height; k++)
 			for (int i = 0; i < scene.nb_colors; i++)
 				image_b[scene.nb_colors * k + i] = -2 * (obs[scene.nb_colors * k + i] - image[scene.nb_colors * k + i]) * err_buffer_b[k];
@@ -3160,9 +3165,4 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 				for (int j = 0; j < 2; j++)
 					scene.ij_b[face[i] * 2 + j] = ij_b[i][j];
 		}
-
-	if (antialiaseError)
-	{
-		delete[] image_b;
-	}
 }
-- 
2.43.0


From 0da88f2753ab934c53115e48acdf9bc6d4774cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 19/23] fix: PyTorch vertex normals are always recomputed with
 the graph of the current view

Face normals cached by a render under torch.no_grad were reused by the next render, whose gradient
then lacked the contribution of the shading.
---
 deodr/pytorch/triangulated_mesh_pytorch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index 9e87861..74050a8 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -78,5 +78,10 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
     def compute_adjacencies(self) -> None:
         self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
+    def compute_vertex_normals(self) -> None:
+        # the cached face normals may belong to the graph of another view, or to none (torch.no_grad)
+        self.compute_face_normals()
+        super().compute_vertex_normals()
+
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
-- 
2.43.0


From da114e7e0664bacbe00feedaafc87af4110cf22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 20/23] fix: OffscreenRenderer drew in the context of the
 renderer created last

---
 deodr/opengl/moderngl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index d9a912d..6920f62 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -65,6 +65,10 @@ class OffscreenRenderer:
         self.texture = None
         self.texture_array = None
 
+    def make_current(self) -> None:
+        # OpenGL calls apply to the current context, which may be the one of another renderer
+        self.ctx.__enter__()
+
     def set_scene(self, deodr_scene: Scene3D) -> None:
         assert deodr_scene.mesh is not None
         assert deodr_scene.light_ambient is not None
@@ -77,6 +81,7 @@ class OffscreenRenderer:
 
     def set_light(self, light_directional: np.ndarray, light_ambient: float) -> None:
         assert light_directional.shape == (3,)
+        self.make_current()
         self.shader_program["light_directional"].value = tuple(light_directional)  # type :ignore
         self.shader_program["light_ambient"].value = light_ambient
 
@@ -115,6 +120,7 @@ class OffscreenRenderer:
 
     def set_texture(self, texture: np.ndarray) -> None:
         # Texture
+        self.make_current()
         assert not texture.flags["WRITEABLE"]
         assert texture.ndim == 3
         # keeps the array alive: its id could be given to another texture otherwise
@@ -160,6 +166,7 @@ class OffscreenRenderer:
 
     def render(self, camera: Camera) -> np.ndarray:
         ctx = self.ctx
+        self.make_current()
         self.zfar = camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
         self.znear = 1e-3 * self.zfar
         # Setting up camera
-- 
2.43.0


From 01a5fb5cebc7910e97c23858e5bf90c5d7e8bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 21/23] fix: the PyTorch rigidity energy could not be evaluated
 on vertices that require a gradient

---
 deodr/pytorch/laplacian_rigid_energy_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/laplacian_rigid_energy_pytorch.py b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
index 77795b6..c43cf47 100644
--- a/deodr/pytorch/laplacian_rigid_energy_pytorch.py
+++ b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
@@ -36,7 +36,7 @@ class LaplacianRigidEnergyPytorch:
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         assert isinstance(vertices, torch.Tensor)
         if vertices.requires_grad:
-            diff = (vertices - self.numpy_imp.vertices_ref).flatten()
+            diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
             grad_vertices = self.numpy_imp.cregu * (self.cT_torch.matmul(diff[:, None])).reshape_as(vertices)
         else:
             diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
-- 
2.43.0


From 9fc19f8dd268ebea4881dac21ba6126b72f9ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 22/23] fix: read_obj skipped the faces whose keyword is
 followed by a tab

---
 deodr/obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 73ed605..7675ead 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -32,7 +32,7 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
             node_counter += 1
             vertices.append(np.array([float(c) for c in coord]))
 
-        elif line.startswith("f "):
+        elif line.startswith(("f ", "f\t")):
             fields = line.split()
             fields.pop(0)
 
-- 
2.43.0


From 2896faebe820f9a1f715e03eebc6b9169fa50f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 23/23] fix: OffscreenRenderer never released the OpenGL
 resources it replaced, nor its context

---
 deodr/opengl/moderngl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index 6920f62..87083c3 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -55,6 +55,8 @@ class OffscreenRenderer:
 
     def __init__(self) -> None:
         self.ctx = moderngl.create_standalone_context()
+        # what is replaced is collected, to be released while this context is current
+        self.ctx.gc_mode = "context_gc"
 
         # Shaders
         self.shader_program = self.ctx.program(
@@ -68,6 +70,11 @@ class OffscreenRenderer:
     def make_current(self) -> None:
         # OpenGL calls apply to the current context, which may be the one of another renderer
         self.ctx.__enter__()
+        self.ctx.gc()
+
+    def __del__(self) -> None:
+        if hasattr(self, "ctx"):
+            self.ctx.release()
 
     def set_scene(self, deodr_scene: Scene3D) -> None:
         assert deodr_scene.mesh is not None
-- 
2.43.0

