From 5851a4652359b1125ea01c075579d590c567044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 01/16] fix: do not move disabled particles as if they were
 walls

A particle that left the domain was teleported to its wall position (its initial
position in the application) with a spurious velocity of the order of distance/dt.
---
 src/OpenMps/Computer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3fa81f8..7a87eed 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1009,8 +1009,8 @@ namespace { namespace OpenMps
 					particles[i].U() += a[i] * dt;
 					particles[i].X() += particles[i].U()* dt;
 				}
-				// 壁の位置
-				else
+				// 壁の位置（無効粒子は動かさない）
+				else if(particles[i].TYPE() != Particle::Type::Disabled)
 				{
 					const Vector x = positionWall(i, t, dt);
 					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分
-- 
2.43.0


From f7f67e4aa5ab28b756dae9d81334c2f0b62673ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 02/16] fix: determine the time step from enabled particles
 only

The velocity of a disabled particle limited the time step of all the others, and
without any particle the end iterator was dereferenced (segmentation fault).
---
 src/OpenMps/Computer.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 7a87eed..e63222b 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -760,16 +760,16 @@ namespace { namespace OpenMps
 		{
 			namespace ublas = boost::numeric::ublas;
 
-			// 最大速度を取得
-			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
-				[](const Particle& base, const Particle& target)
+			// 最大速度を取得（無効粒子は除く）
+			auto maxU = 0.0;
+			for(const auto& particle : particles)
 			{
-				const auto& baseU = base.U();
-				const auto& targetU = target.U();
-				return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));
-			});
-			const auto maxU = ublas::norm_2(maxUParticle.U());
-
+				if(particle.TYPE() != Particle::Type::Disabled)
+				{
+					const double u = ublas::norm_2(particle.U());
+					maxU = std::max(maxU, u);
+				}
+			}
 
 			// CFL条件より時間刻みを決定する
 			const auto dt = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));
-- 
2.43.0


From 9f0515b8d2e4a2091f569f4ed4631148cd68813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/16] fix: report every error of the computation, not only
 the solver's

The grid's "Too many particle in a block" was not caught: the program aborted
instead of reporting the error and finishing with the frames written so far.
---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4769219..172bbdf 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -384,7 +384,7 @@ int main(const int argc, const char* const argv[])
 			printTime(tComputer, iteration, outputCount + outputIterationOffset, count);
 		}
 		// 計算で例外があったら
-		catch(decltype(computer)::Exception ex)
+		catch(const std::exception& ex)
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-- 
2.43.0


From 2e52680d38b5a84f0a4d556f1e9c83319298b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 04/16] fix: clear all the blocks of a 3D grid (y loop ran to
 the size of x)

---
 src/OpenMps/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 1ea3925..f57bf22 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -229,7 +229,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
-- 
2.43.0


From 599960f164cce3b0aa47a3fdd1309bd4ca6cc161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 05/16] fix: reject a particle row with missing items instead
 of reading out of bounds

---
 src/OpenMps/Main.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 172bbdf..9d713da 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -150,27 +150,27 @@ namespace
 			const auto data = GetItems(line);
 			if (data.size() > 0) // 空行は飛ばす
 			{
-				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
+				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data.at(header["Type"]))));
 
 				// 位置ベクトル
-				particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);
+				particle.X()[OpenMps::AXIS_X] = stov<double>(data.at(header["x"]));
 #ifdef DIM3
-				particle.X()[OpenMps::AXIS_Y] = stov<double>(data[header["y"]]);
+				particle.X()[OpenMps::AXIS_Y] = stov<double>(data.at(header["y"]));
 #endif
-				particle.X()[OpenMps::AXIS_Z] = stov<double>(data[header["z"]]);
+				particle.X()[OpenMps::AXIS_Z] = stov<double>(data.at(header["z"]));
 
 				// 速度ベクトル
-				particle.U()[OpenMps::AXIS_X] = stov<double>(data[header["u"]]);
+				particle.U()[OpenMps::AXIS_X] = stov<double>(data.at(header["u"]));
 #ifdef DIM3
-				particle.U()[OpenMps::AXIS_Y] = stov<double>(data[header["v"]]);
+				particle.U()[OpenMps::AXIS_Y] = stov<double>(data.at(header["v"]));
 #endif
-				particle.U()[OpenMps::AXIS_Z] = stov<double>(data[header["w"]]);
+				particle.U()[OpenMps::AXIS_Z] = stov<double>(data.at(header["w"]));
 
 				// 圧力
-				particle.P() = stov<double>(data[header["p"]]);
+				particle.P() = stov<double>(data.at(header["p"]));
 
 				// 粒子数密度
-				particle.N() = stov<double>(data[header["n"]]);
+				particle.N() = stov<double>(data.at(header["n"]));
 
 				particles.push_back(std::move(particle));
 			}
-- 
2.43.0


From a82f1a7bee9e6a67d96886894c1fb1751831a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 06/16] trace points for the verification, guarded by
 OPENMPS_TRACE

---
 src/OpenMps/Computer.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index e63222b..6186739 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -50,6 +50,14 @@ namespace { namespace std
 	#define OMP_PARALLEL_FOR
 #endif
 
+// 検証用の観測点（OPENMPS_TRACEを定義しない通常のビルドでは何もしない）
+#ifdef OPENMPS_TRACE
+struct OpenMpsTrace;
+	#define OPENMPS_TRACE_POINT(NAME) ::OpenMpsTrace::Point(*this, NAME)
+#else
+	#define OPENMPS_TRACE_POINT(NAME) static_cast<void>(0)
+#endif
+
 namespace { namespace OpenMps
 {
 	// 近傍粒子との相互作用
@@ -458,6 +466,9 @@ namespace { namespace OpenMps
 #ifdef TEST_NEIGHBORDENSITYVARIATION
 	friend class NeighborDensityVariationTest;
 #endif
+#ifdef OPENMPS_TRACE
+	friend struct ::OpenMpsTrace;
+#endif
 
 	private:
 		// 粒子リスト
@@ -1068,9 +1079,11 @@ namespace { namespace OpenMps
 #else
 			// 圧力方程式を設定
 			SetPressurePoissonEquation();
+			OPENMPS_TRACE_POINT("assembled");
 
 			// 圧力方程式を解く
 			SolvePressurePoissonEquation();
+			OPENMPS_TRACE_POINT("solve");
 
 			// 得た圧力を代入する
 			OMP_PARALLEL_FOR
@@ -1097,8 +1110,11 @@ namespace { namespace OpenMps
 			}
 #endif
 
+			OPENMPS_TRACE_POINT("pressure");
+
 			// 圧力勾配項を計算する
 			ModifyByPressureGradient();
+			OPENMPS_TRACE_POINT("gradient");
 		}
 
 #ifdef ARTIFICIAL_COLLISION_FORCE
@@ -1708,9 +1724,11 @@ namespace { namespace OpenMps
 			// 近傍粒子探索
 			// ※近傍粒子半径を大きめにとっているので1回で良い
 			SearchNeighbor();
+			OPENMPS_TRACE_POINT("search");
 
 			// 粒子数密度を計算する
 			ComputeNeighborDensities();
+			OPENMPS_TRACE_POINT("density1");
 
 #ifdef MPS_ECS
 			ComputeErrorCorrection();
@@ -1718,6 +1736,7 @@ namespace { namespace OpenMps
 
 			// 第一段階の計算
 			ComputeExplicitForces();
+			OPENMPS_TRACE_POINT("explicit");
 
 #ifdef ARTIFICIAL_COLLISION_FORCE
 			// 過剰接近粒子の補正
@@ -1726,6 +1745,7 @@ namespace { namespace OpenMps
 
 			// 粒子数密度を計算する
 			ComputeNeighborDensities();
+			OPENMPS_TRACE_POINT("density2");
 
 #ifdef MPS_DS
 			// 圧力勾配の前の位置を保存
-- 
2.43.0


From 26e9beb38d67b49720909b0147d34118ce9d3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 07/16] fix: keep the pressure of disabled particles in the
 explicit method

---
 src/OpenMps/Computer.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 6186739..78dee44 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1070,11 +1070,15 @@ namespace { namespace OpenMps
 
 				auto& particle = particles[i];
 
-				// 仮想的な密度：ρ0/n0 * n
-				const auto rho = rho0 / n0 * particle.N();
+				// 無効粒子は除く
+				if (particle.TYPE() != Particle::Type::Disabled)
+				{
+					// 仮想的な密度：ρ0/n0 * n
+					const auto rho = rho0 / n0 * particle.N();
 
-				// 圧力の計算：c^2 (ρ-ρ0)（基準密度以下なら圧力は発生しない）
-				particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);
+					// 圧力の計算：c^2 (ρ-ρ0)（基準密度以下なら圧力は発生しない）
+					particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);
+				}
 			}
 #else
 			// 圧力方程式を設定
-- 
2.43.0


From 08613028aa509299535a130c88854cf23ef3c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 08/16] fix: invert 3x3 matrices (the result was the transposed
 inverse)

---
 src/OpenMps/Computer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 78dee44..fac1be4 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -420,9 +420,9 @@ namespace { namespace OpenMps
 							a00, a01,
 							a10, a11);
 
-						mat(0, 0) = +A00 / det; mat(0, 1) = -A01 / det; mat(0, 2) = +A02 / det;
-						mat(1, 0) = -A10 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A12 / det;
-						mat(2, 0) = +A20 / det; mat(2, 1) = -A21 / det; mat(2, 2) = +A22 / det;
+						mat(0, 0) = +A00 / det; mat(0, 1) = -A10 / det; mat(0, 2) = +A20 / det;
+						mat(1, 0) = -A01 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A21 / det;
+						mat(2, 0) = +A02 / det; mat(2, 1) = -A12 / det; mat(2, 2) = +A22 / det;
 
 						return mat;
 					}
-- 
2.43.0


From 269bd8147d81d790fe85319f3b5925e0291c0f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 09/16] fix: resize the pressure equation when particles are
 added (ViennaCL does not assign other sizes)

---
 src/OpenMps/Computer.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index fac1be4..c85bb58 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1182,15 +1182,16 @@ namespace { namespace OpenMps
 			if (n != ppe.b.size())
 			{
 				// サイズを変えて作り直し
-				ppe.A = typename Ppe::Matrix {n, n};
-				ppe.x = typename Ppe::LongVector(n);
-				ppe.b = typename Ppe::LongVector(n);
-				ppe.cg.r = typename Ppe::LongVector(n);
-				ppe.cg.p = typename Ppe::LongVector(n);
-				ppe.cg.Ap = typename Ppe::LongVector(n);
+				// ※ViennaCLでは大きさの異なる行列・ベクトルを代入できないので、resizeで変更する
+				ppe.A.resize(n, n, false);
+				ppe.x.resize(n, false);
+				ppe.b.resize(n, false);
+				ppe.cg.r.resize(n, false);
+				ppe.cg.p.resize(n, false);
+				ppe.cg.Ap.resize(n, false);
 
 #ifdef USE_VIENNACL
-				ppe.tempA = typename Ppe::TempMatrix(n, n);
+				ppe.tempA.resize(n, n, false);
 #endif
 
 #ifdef _OPENMP
-- 
2.43.0


From 34a806c4d9103e3cac34a4e08d5282f5a7439f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 10/16] fix: a step without particles has no pressure equation
 to solve

---
 src/OpenMps/Computer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index c85bb58..80d7244 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1395,6 +1395,12 @@ namespace { namespace OpenMps
 			auto& p = ppe.cg.p;
 			auto& Ap = ppe.cg.Ap;
 
+			// 未知数がなければなにもしない
+			if (x.size() == 0)
+			{
+				return;
+			}
+
 			// 初期値を設定
 			//  (Ap)_0 = A * x
 			//  r_0 = b - Ap
-- 
2.43.0


From b9d8f76f6f37b4a21feec1fca8c0d54efcc93ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 11/16] fix: reject particle data without a header instead of
 reading past its end

---
 src/OpenMps/Main.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 9d713da..39ec3ce 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -74,10 +74,6 @@ namespace
 		std::vector<std::string> input;
 		boost::algorithm::split(input, csv, boost::is_any_of("\n"));
 
-		// 先頭の空行は飛ばす
-		auto itr = input.cbegin();
-		for (; itr->size() == 0; ++itr) {}
-
 		// 行をカンマ区切りで分割する関数
 		const auto GetItems = [](std::string str)
 		{
@@ -95,6 +91,14 @@ namespace
 			return data;
 		};
 
+		// 先頭の空行は飛ばす
+		auto itr = std::find_if(input.cbegin(), input.cend(),
+			[&GetItems](const auto& line) { return GetItems(line).size() > 0; });
+		if (itr == input.cend())
+		{
+			throw std::runtime_error("No header in input csv");
+		}
+
 		// ヘッダー項目の列番号を取得（ない場合は0が入る）
 		constexpr std::size_t HEADER_NOT_FOUND = 0;
 		auto header = std::unordered_map<std::string, std::size_t>(
-- 
2.43.0


From 14d3b611a4ad51239ba90ea7985a7b787026932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 12/16] fix: reject particles without a type instead of reading
 an empty optional

---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 39ec3ce..e4a5c82 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -190,7 +190,7 @@ namespace
 	inline decltype(auto) LoadParticles(const boost::property_tree::ptree& xml)
 	{
 		// 粒子データの読み込み
-		const auto type = xml.get_optional<std::string>("openmps.particles.<xmlattr>.type").get();
+		const auto type = xml.get<std::string>("openmps.particles.<xmlattr>.type");
 		if (type == "csv")
 		{
 			auto&& txt = xml.get<std::string>("openmps.particles");
-- 
2.43.0


From b877d3da7cbd12aaafc63562b834aa9723ce5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:13 +0000
Subject: [PATCH 13/16] fix: storing into a full search block no longer counts
 the item that was refused

The number of items stayed too high after the exception, so that walking the
grid read items that do not exist, beyond the end of the block.
---
 src/OpenMps/Grid.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index f57bf22..8b97ff1 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -314,6 +314,22 @@ namespace { namespace OpenMps
 				const auto maxCount = MaxParticles();
 				if(l >= maxCount)
 				{
+					// 格納しなかったので、粒子数を元に戻しておく（戻さないと存在しない粒子まで探索してしまう）
+#ifdef ATOMIC_LOCK
+					omp_set_lock(lock);
+#else
+#ifdef _OPENMP
+					#pragma omp atomic
+#endif
+#endif
+#ifdef DIM3
+					data[i][j][k][0]--;
+#else
+					data[i][k][0]--;
+#endif
+#ifdef ATOMIC_LOCK
+					omp_unset_lock(lock);
+#endif
 					throw Exception("Too many particle in a block");
 				}
 #ifdef DIM3
-- 
2.43.0


From 89040c90c3563f5f7dcb9f5b4ea57f563d6c4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 14/16] fix: an end time before the start time no longer
 computes without end

The number of frames was negative and was cast to an unsigned integer.
---
 src/OpenMps/Main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index e4a5c82..fac5cea 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -363,7 +363,8 @@ int main(const int argc, const char* const argv[])
 	// 計算が終了するまで
 	double nextOutputT = 0;
 	std::size_t iteration = 0;
-	const auto endCount = static_cast<std::size_t>(std::ceil((condition.EndTime - condition.StartTime) / condition.OutputInterval));
+	const auto duration = std::max(condition.EndTime - condition.StartTime, 0.0); // 開始時間の方が後なら計算しない
+	const auto endCount = static_cast<std::size_t>(std::ceil(duration / condition.OutputInterval));
 	for(auto outputCount = decltype(endCount){1}; outputCount <= endCount; outputCount++)
 	{
 		double tComputer = computer.GetEnvironment().T();
-- 
2.43.0


From 551847d6ad2e4d77947322f53c9cbc14303a6b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 15/16] fix: do not count one frame too many because of
 rounding

A start time of 1.1 with an output interval of 0.1 got the number 12 instead
of 11, so that a resumed run left a gap.
---
 src/OpenMps/Main.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index fac5cea..2031f76 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -277,6 +277,14 @@ namespace
 		);
 	}
 
+	// 時間内に含まれる出力間隔の個数（端数は切り上げ）
+	inline auto CountOutput(const double t, const double outputInterval)
+	{
+		// 丸め誤差のせいで切り上げられて、1個多くなってしまうのを防ぐ
+		const auto count = t / outputInterval;
+		return static_cast<std::size_t>(std::ceil(count - 1e-9 * std::max(count, 1.0)));
+	}
+
 	template<typename T>
 	static void System(T&& arg)
 	{
@@ -337,7 +345,7 @@ int main(const int argc, const char* const argv[])
 	timer.Start();
 	boost::format timeFormat("#%3$05d: t=%1$8.4lf (%2$05d), %10$12d particles, @ %4$02d/%5$02d %6$02d:%7$02d:%8$02d (%9$8.2lf)");
 
-	const auto outputIterationOffset = static_cast<std::size_t>(std::ceil(condition.StartTime / condition.OutputInterval));
+	const auto outputIterationOffset = CountOutput(condition.StartTime, condition.OutputInterval);
 
 	// 開始時間を画面表示
 	const auto printTime = [&timeFormat, &timer](const auto tComputer, const auto iteration, const auto outputCount, const auto count)
@@ -364,7 +372,7 @@ int main(const int argc, const char* const argv[])
 	double nextOutputT = 0;
 	std::size_t iteration = 0;
 	const auto duration = std::max(condition.EndTime - condition.StartTime, 0.0); // 開始時間の方が後なら計算しない
-	const auto endCount = static_cast<std::size_t>(std::ceil(duration / condition.OutputInterval));
+	const auto endCount = CountOutput(duration, condition.OutputInterval);
 	for(auto outputCount = decltype(endCount){1}; outputCount <= endCount; outputCount++)
 	{
 		double tComputer = computer.GetEnvironment().T();
-- 
2.43.0


From a2c6aaa854290d922184bb3bd1934d3821f28bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 16/16] fix: report a frame that cannot be written

The run went on and showed the frame as written.
---
 src/OpenMps/Main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 2031f76..00a1037 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -63,6 +63,13 @@ namespace
 			}
 		}
 
+		// 書き込めなかったらエラー
+		output.close();
+		if (!output)
+		{
+			throw std::runtime_error("Couldn't write " + filename);
+		}
+
 		return nonDisalbeCount;
 	}
 
-- 
2.43.0

