-2.18519517, 18.094894, 17.065994, -0.000106027965, 40.5492161,
-88.9318477, 549.829406, 27.3466072, -0.00916177759, 3.80875942,
132.482522, 1.02135987, 27.3466002, 1.88532363e-05, 8.6870445,
-2.38100984, 18.9995516, 17.9664101, 0.000217732599, 43.878387,
-97.0076773, 578.194921, 28.7872637, -0.00769929281, 3.94182167,
142.696595, 1.07113194, 28.7872658, 2.08593831e-05, 9.36093476,
-2.61773405, 20.0934702, 19.0551998, 0.00060922631, 47.9040448,
-106.776968, 612.494708, 30.5293159, -0.00593084557, 4.10272151,
155.043268, 1.13131669, 30.5293292, 2.32852475e-05, 10.1758078,
-2.40485694, 19.1173415, 18.0837206, -0.000135794829, 44.3122532,
-98.1048723, 581.889317, 28.9749108, -0.00432117149, 3.95914129,
144.003362, 1.07761101, 28.9749085, 7.2606269e-06, 9.45049634,
-2.60054335, 20.0219942, 18.9841373, -1.92412717e-05, 47.6414129,
-106.17535, 610.254426, 30.4155742, -0.00379467766, 4.09187962,
154.223588, 1.12738293, 30.4155752, 7.98281272e-06, 10.1243864,
-2.8379403, 21.115907, 20.0729277, 0.0001216965, 51.667057,
-115.949753, 644.553724, 32.1576348, -0.0031580375, 4.25238777,
166.566462, 1.18756749, 32.1576398, 8.85616335e-06, 10.9392592
