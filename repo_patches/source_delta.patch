From a46ff40aea3cd9fa0bdbaaf5b35a5d565f180d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 01/19] fix: read boundary tags of the edges whatever the
 section order of the mesh file

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e042ccf..b102b92 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -161,7 +161,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data["medit:ref"][0]
+        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
-- 
2.43.0


From 9f8a0f69c26a02a3f8db3e9d9f394ede2640223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 02/19] fix: keep lhs sampled boundary points on their boundary
 edge

---
 fastvpinns/Geometry/geometry_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index b102b92..9c99691 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -177,9 +177,9 @@ class Geometry_2D(Geometry):
                 new_points = np.linspace(p1, p2, pow(2, boundary_point_refinement_level) + 1)
             elif bd_sampling_method == "lhs":
                 # take the current point and next point and then perform a uniform sampling
-                new_points = lhs(2, pow(2, boundary_point_refinement_level) + 1)
-                new_points[:, 0] = new_points[:, 0] * (p2[0] - p1[0]) + p1[0]
-                new_points[:, 1] = new_points[:, 1] * (p2[1] - p1[1]) + p1[1]
+                # use one parameter per point, so that the points lie on the (slanted) edge
+                t = lhs(1, pow(2, boundary_point_refinement_level) + 1)
+                new_points = t * (p2[:2] - p1[:2]) + p1[:2]
             else:
                 print(
                     f"Invalid sampling method {bd_sampling_method} in {self.__class__.__name__} from {__name__}."
-- 
2.43.0


From d4b4ddc60afa6269f4cabf4debca2130ebd861cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 03/19] fix: read mesh files with two dimensional points

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 9c99691..f904f78 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -157,7 +157,7 @@ class Geometry_2D(Geometry):
 
         # Number of Existing Boundary points
         print(
-            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1,3)).shape[0] * 0.5 + 1}"
+            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1, boundary_coordinates.shape[-1])).shape[0] * 0.5 + 1}"
         )
 
         # now Get the physical tag of the boundary edges
-- 
2.43.0


From dee7c4b9cf9c202a891add1c5a42910bbea07489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 04/19] fix: use point indices as connectivity of the internal
 mesh

---
 fastvpinns/Geometry/geometry_2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index f904f78..cafa46e 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -287,7 +287,10 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(points=cells.reshape(-1, 2), cells=[("quad", cells.reshape(-1, 4))])
+        self.mesh = meshio.Mesh(
+            points=cells.reshape(-1, 2),
+            cells=[("quad", np.arange(4 * cells.shape[0]).reshape(-1, 4))],
+        )
 
         # lets generate the boundary points, this function will return a dictionary of boundary points
         # the keys will be the boundary tags and values will be the list of boundary points
-- 
2.43.0


From cf10c2bcb5e7b310f21a3e3a252d37ba1bc3462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 05/19] fix: respect the staircase flag of the learning rate
 scheduler

---
 fastvpinns/model/model.py                | 4 ++--
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index d3cb516..3cfc88e 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -132,11 +132,11 @@ class DenseModel(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 3af0338..94c094a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -157,7 +157,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 6309e46..40bd87c 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -148,7 +148,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 61e78d7..4e08886 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -129,11 +129,11 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
-- 
2.43.0


From 965b4f23ad20a0a22d0d5b59b5941b18c119b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 06/19] fix: plot meshes with any number of boundary tags

---
 fastvpinns/FE/fespace2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 53e3727..367fd54 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -323,7 +323,7 @@ class Fespace2D(Fespace):
 
             bound_dof += x.shape[0]
 
-            plt.scatter(x, y, marker=marker_list[i + 1], s=2, label=f"Bd-id : {bound_id}")
+            plt.scatter(x, y, marker=marker_list[(i + 1) % len(marker_list)], s=2, label=f"Bd-id : {bound_id}")
 
         self.total_boundary_dofs = bound_dof
 
-- 
2.43.0


From 68dce73d7fdb563673333f8d3a1f77d9a16a20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 07/19] fix: run the hyperparameter search on machines without
 GPUs

---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index af4ebcb..7968aec 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -40,6 +40,9 @@ class OptunaTuner:
         Wrapper function to run the objective function on a specific GPU.
         """
 
+        if not self.gpus:
+            return objective(trial, self.n_epochs)
+
         gpu_id = trial.number % len(self.gpus)
         with tf.device(f'/device:GPU:{gpu_id}'):
             return objective(trial, self.n_epochs)
@@ -51,9 +54,8 @@ class OptunaTuner:
             storage="sqlite:///fastvpinns_optuna.db",
             load_if_exists=True,
         )
-        study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus), self.n_jobs)
-        )
+        n_jobs = min(len(self.gpus), self.n_jobs) if self.gpus else self.n_jobs
+        study.optimize(self.objective_wrapper, n_trials=self.n_trials, n_jobs=n_jobs)
 
         print("Best trial:")
         trial = study.best_trial
-- 
2.43.0


From 1d921fb8c475f281ab6d87818788f042fee5bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 08/19] fix: parameter conversion must not modify the user's
 dictionary

---
 fastvpinns/data/datahandler2d.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/fastvpinns/data/datahandler2d.py b/fastvpinns/data/datahandler2d.py
index 6b1474d..b482e5a 100644
--- a/fastvpinns/data/datahandler2d.py
+++ b/fastvpinns/data/datahandler2d.py
@@ -157,11 +157,12 @@ class DataHandler2D(DataHandler):
         # get the dictionary of bilinear parameters
         bilinear_params_dict = function()
 
-        # loop over all keys and convert the values to tensors
-        for key in bilinear_params_dict.keys():
-            bilinear_params_dict[key] = tf.constant(bilinear_params_dict[key], dtype=self.dtype)
-
-        return bilinear_params_dict
+        # convert the values to tensors, in a new dictionary: the one that was returned by
+        # the given function belongs to the user and must not be modified
+        return {
+            key: tf.constant(value, dtype=self.dtype)
+            for key, value in bilinear_params_dict.items()
+        }
 
     # to be used only in inverse problems
     def get_sensor_data(self, exact_sol, num_sensor_points, mesh_type, file_name=None):
@@ -207,11 +208,11 @@ class DataHandler2D(DataHandler):
         :return: The inverse parameters dictionary with all the values converted to tensors
         :rtype: dict
         """
-        # loop over all keys and convert the values to tensors
-
+        # convert the values to tensors, in a new dictionary: the one that was returned by
+        # the given function belongs to the user and must not be modified
         inverse_params_dict = inverse_params_dict_function()
 
-        for key in inverse_params_dict.keys():
-            inverse_params_dict[key] = tf.constant(inverse_params_dict[key], dtype=self.dtype)
-
-        return inverse_params_dict
+        return {
+            key: tf.constant(value, dtype=self.dtype)
+            for key, value in inverse_params_dict.items()
+        }
-- 
2.43.0


From dca92ffd8c893f162263e352e487b679672be0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 09/19] fix: float64 models compute in float64 instead of
 casting their inputs to float32

---
 fastvpinns/model/model.py                | 4 ++--
 fastvpinns/model/model_hard.py           | 5 +++--
 fastvpinns/model/model_inverse.py        | 4 ++--
 fastvpinns/model/model_inverse_domain.py | 4 ++--
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 3cfc88e..30b419f 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -60,7 +60,7 @@ class DenseModel(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel, self).__init__()
+        super(DenseModel, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -172,7 +172,7 @@ class DenseModel(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 94c094a..ce56113 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -75,7 +75,7 @@ class DenseModel_Hard(tf.keras.Model):
         hessian=False,
         hard_constraint_function=None,
     ):
-        super(DenseModel_Hard, self).__init__()
+        super(DenseModel_Hard, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -193,7 +193,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
@@ -213,6 +213,7 @@ class DenseModel_Hard(tf.keras.Model):
         :return: Output tensor from the model
         :rtype: tf.Tensor
         """
+        inputs = tf.cast(inputs, self.tensor_dtype)
         x = inputs
 
         # Apply attention layer after input if flag is True
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 40bd87c..aa1e5ff 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -54,7 +54,7 @@ class DenseModel_Inverse(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse, self).__init__()
+        super(DenseModel_Inverse, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -184,7 +184,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 4e08886..62169e7 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -52,7 +52,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse_Domain, self).__init__()
+        super(DenseModel_Inverse_Domain, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -178,7 +178,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
-- 
2.43.0


From 30e8cad5e554540c4f62d3a9a034f493e322c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 10/19] fix: cd2d_inverse loss takes the keywords the inverse
 model passes

---
 fastvpinns/physics/cd2d_inverse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/physics/cd2d_inverse.py b/fastvpinns/physics/cd2d_inverse.py
index 073bdba..1da19d8 100644
--- a/fastvpinns/physics/cd2d_inverse.py
+++ b/fastvpinns/physics/cd2d_inverse.py
@@ -23,8 +23,8 @@ def pde_loss_cd2d(
     pred_grad_x_nn,
     pred_grad_y_nn,
     forcing_function,
-    bilinear_params_dict,
-    inverse_param_dict,
+    bilinear_params,
+    inverse_params_dict,
 ):  # pragma: no cover
     """
     Calculates and returns the loss for the  CD2D problem Inverse (constant)
@@ -43,10 +43,10 @@ def pde_loss_cd2d(
     :type pred_grad_y_nn: tf.Tensor
     :param forcing_function: The forcing function used in the PDE.
     :type forcing_function: function
-    :param bilinear_params_dict: The dictionary containing the bilinear parameters.
-    :type bilinear_params_dict: dict
-    :param inverse_param_dict: The dictionary containing the parameters for the inverse problem.
-    :type inverse_param_dict: dict
+    :param bilinear_params: The dictionary containing the bilinear parameters.
+    :type bilinear_params: dict
+    :param inverse_params_dict: The dictionary containing the parameters for the inverse problem.
+    :type inverse_params_dict: dict
 
     :return: The calculated loss.
     :rtype: tf.Tensor
@@ -61,7 +61,7 @@ def pde_loss_cd2d(
     pde_diffusion_y = tf.transpose(tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
 
     # eps * ∫ (du/dx. dv/dx + du/dy. dv/dy) dΩ
-    pde_diffusion = inverse_param_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
+    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
 
     # ∫du/dx. v dΩ
     conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))
@@ -70,11 +70,11 @@ def pde_loss_cd2d(
     conv_y = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_y_nn))
 
     # # b(x) * ∫du/dx. v dΩ + b(y) * ∫du/dy. v dΩ
-    conv = bilinear_params_dict["b_x"] * conv_x + bilinear_params_dict["b_y"] * conv_y
+    conv = bilinear_params["b_x"] * conv_x + bilinear_params["b_y"] * conv_y
 
     # reaction term
     # ∫c.u.v dΩ
-    reaction = bilinear_params_dict["c"] * tf.transpose(
+    reaction = bilinear_params["c"] * tf.transpose(
         tf.linalg.matvec(test_shape_val_mat, pred_nn)
     )
 
-- 
2.43.0


From 243bde17aa35dd5c1111b1f982fc7bc8a04a1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 11/19] fix: inverse models keep their own dictionary of
 trainable parameters

---
 fastvpinns/model/model_inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index aa1e5ff..61f0a1a 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -70,7 +70,7 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_values = sensor_list[1]
 
         # inverse params dict
-        self.inverse_params_dict = inverse_params_dict
+        self.inverse_params_dict = dict(inverse_params_dict)
 
         # Conver all the values within inverse_params_dict to trainable variables
         for key, value in self.inverse_params_dict.items():
-- 
2.43.0


From ab447fc66e62d92b3e9d373c5a5930e83f89afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 12/19] fix: residual plots name the axes of their colour bar

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index cafa46e..feb6557 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -559,7 +559,7 @@ class Geometry_2D(Geometry):
 
         sm = plt.cm.ScalarMappable(cmap=colormap, norm=norm)
         sm.set_array([])
-        plt.colorbar(sm)
+        plt.colorbar(sm, ax=plt.gca())
 
         # output filename
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
-- 
2.43.0


From 40e429b199ec711c481b7e1bc9138f96848ccd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 13/19] fix: basis assignment refuses an invalid cell type

---
 fastvpinns/FE/fe2d_setup_main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fastvpinns/FE/fe2d_setup_main.py b/fastvpinns/FE/fe2d_setup_main.py
index 1326fb0..50c2d0e 100644
--- a/fastvpinns/FE/fe2d_setup_main.py
+++ b/fastvpinns/FE/fe2d_setup_main.py
@@ -77,6 +77,9 @@ class FE2DSetupMain:
                 )
 
         print(f"Invalid cell type {self.cell_type} in {self.__class__.__name__} from {__name__}.")
+        raise ValueError(
+            f"Invalid cell type {self.cell_type} in {self.__class__.__name__} from {__name__}."
+        )
 
     def assign_quadrature_rules(self):
         """
-- 
2.43.0


From 55983cc066b55072fb3b743cd4174c9118ed0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 14/19] fix: parallel trials may create the shared output
 folder at the same time

---
 fastvpinns/hyperparameter_tuning/objective.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/objective.py b/fastvpinns/hyperparameter_tuning/objective.py
index 707ddba..6934992 100644
--- a/fastvpinns/hyperparameter_tuning/objective.py
+++ b/fastvpinns/hyperparameter_tuning/objective.py
@@ -70,8 +70,7 @@ def objective(trial, num_epochs):
     # Set up your model and training process using the suggested hyperparameters
 
     output_temp_dir = "output_temp"
-    if not os.path.exists(output_temp_dir):
-        os.makedirs(output_temp_dir)
+    os.makedirs(output_temp_dir, exist_ok=True)
 
     gpus = tf.config.list_physical_devices('GPU')
     if gpus:
-- 
2.43.0


From 3aa42c2610330e0366b9069245b120e800c7bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 15/19] fix: a refused internal mesh generation left the limits
 of the refused domain behind

---
 fastvpinns/Geometry/geometry_2d.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index feb6557..3623419 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -248,11 +248,6 @@ class Geometry_2D(Geometry):
         :rtype: tuple[numpy.ndarray, dict]
         """
 
-        self.n_cells_x = n_cells_x
-        self.n_cells_y = n_cells_y
-        self.x_limits = x_limits
-        self.y_limits = y_limits
-
         # generate linspace of points in x and y direction
         x = np.linspace(x_limits[0], x_limits[1], n_cells_x + 1)
         y = np.linspace(y_limits[0], y_limits[1], n_cells_y + 1)
@@ -287,7 +282,7 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(
+        mesh = meshio.Mesh(
             points=cells.reshape(-1, 2),
             cells=[("quad", np.arange(4 * cells.shape[0]).reshape(-1, 4))],
         )
@@ -339,6 +334,12 @@ class Geometry_2D(Geometry):
         y_left = _temp_bd_func(y_limits[0], y_limits[1], num_bound_per_side)
         bd_points[1003] = np.vstack([x_left, y_left]).T
 
+        # Assign to class values, once everything has been generated
+        self.n_cells_x = n_cells_x
+        self.n_cells_y = n_cells_y
+        self.x_limits = x_limits
+        self.y_limits = y_limits
+        self.mesh = mesh
         self.cell_points = cells
         self.bd_dict = bd_points
 
-- 
2.43.0


From 2d1d6a8b0b26714405c9a28efe12c9fe81bc30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 16/19] fix: a refused mesh file replaced the mesh of the
 geometry object all the same

---
 fastvpinns/Geometry/geometry_2d.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 3623419..fa37766 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -114,8 +114,6 @@ class Geometry_2D(Geometry):
         :rtype: tuple
         """
 
-        self.mesh_file_name = mesh_file
-
         # bd_sampling_method = "uniform"  # "uniform" or "lhs"
 
         file_extension = Path(mesh_file).suffix
@@ -124,15 +122,15 @@ class Geometry_2D(Geometry):
             raise ValueError("Mesh file should be in .mesh format.")
 
         # Read mesh using meshio
-        self.mesh = meshio.read(mesh_file)
+        mesh = meshio.read(mesh_file)
 
         if self.mesh_type == "quadrilateral":
             # Extract cell information
-            cells = self.mesh.cells_dict["quad"]
+            cells = mesh.cells_dict["quad"]
 
         num_cells = cells.shape[0]
         print(f"[INFO] : Number of cells = {num_cells}")
-        cell_points = self.mesh.points[cells][
+        cell_points = mesh.points[cells][
             :, :, 0:2
         ]  # remove the z coordinate, which is 0 for all points
 
@@ -150,10 +148,10 @@ class Geometry_2D(Geometry):
         print(f"[INFO] : Number of points per cell = {cell_points.shape}")
 
         # Collect the Boundary point id's within the domain
-        boundary_edges = self.mesh.cells_dict["line"]
+        boundary_edges = mesh.cells_dict["line"]
 
         # Using the point id, collect the coordinates of the boundary points
-        boundary_coordinates = self.mesh.points[boundary_edges]
+        boundary_coordinates = mesh.points[boundary_edges]
 
         # Number of Existing Boundary points
         print(
@@ -161,7 +159,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
+        boundary_tags = mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
@@ -203,6 +201,9 @@ class Geometry_2D(Geometry):
             val = np.unique(val, axis=0)
             boundary_dict[tag] = val
 
+        # Assign to class values, once the whole file has been understood
+        self.mesh_file_name = mesh_file
+        self.mesh = mesh
         self.bd_dict = boundary_dict
         # print the new boundary points  on each boundary tag (key) in a tabular format
 
@@ -215,7 +216,6 @@ class Geometry_2D(Geometry):
 
         print(f"[INFO] : No of bound pts after refinement:  {total_bound_points}")
 
-        # Assign to class values
         self.cell_points = cell_points
 
         # generate testvtk
-- 
2.43.0


From 1117c73461ebd5c7d848585c19b694bdbe2ddf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 17/19] fix: the configuration of a hard-constrained model
 includes its constraint function

A model rebuilt from get_config() silently had no constraint at all.
---
 fastvpinns/model/model_hard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index ce56113..5559997 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -251,6 +251,7 @@ class DenseModel_Hard(tf.keras.Model):
                 "hessian": self.hessian,
                 "layer_dims": self.layer_dims,
                 "tensor_dtype": self.tensor_dtype,
+                "hard_constraint_function": self.hard_constraint_function,
             }
         )
 
-- 
2.43.0


From 856d08701c09f2c552caa948b9464276978bf5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 18/19] fix: the configuration of an inverse model holds the
 values of its parameters, not its variables

A model rebuilt from get_config() tracked the variables of the first model in
addition to its own, so the weights of one could not be given to the other.
---
 fastvpinns/model/model_inverse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 61f0a1a..f5c3103 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -243,7 +243,11 @@ class DenseModel_Inverse(tf.keras.Model):
                 "layer_dims": self.layer_dims,
                 "tensor_dtype": self.tensor_dtype,
                 "sensor_list": self.sensor_list,
-                "inverse_params_dict": self.inverse_params_dict,
+                # values, not the trainable variables of this model, which a model created
+                # from the configuration would otherwise track as its own
+                "inverse_params_dict": {
+                    key: value.numpy() for key, value in self.inverse_params_dict.items()
+                },
             }
         )
 
-- 
2.43.0


From dcb983739b60e8cc66c9ccd52401e245378c0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:04 +0000
Subject: [PATCH 19/19] fix: an inverse model with attention was built before
 its layers and attention existed

---
 fastvpinns/model/model_inverse_domain.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 62169e7..993af13 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -140,15 +140,6 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         self.optimizer = tf.keras.optimizers.Adam(learning_rate=learning_rate_fn)
 
-        # build the model using the input shape of the first layer in self.layer_dims
-        input_shape = (None, self.layer_dims[0])
-        # build the model
-        self.build(input_shape=input_shape)
-        # Compile the model
-        self.compile(optimizer=self.optimizer)
-        # print model summary
-        self.summary()
-
         ## ----------------------------------------------------------------- ##
         ## --------------------- MODEL ARCHITECTURE ------------------------ ##
         ## ----------------------------------------------------------------- ##
-- 
2.43.0

