// The message definitions of the pinned release, as a serialized FileDescriptorSet
// (protoc --include_imports --descriptor_set_out).
static const unsigned char kPinnedSchema[] = {
  10,182,19,10,36,100,112,102,47,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,
  110,116,95,102,117,110,99,116,105,111,110,46,112,114,111,116,111,18,27,100,105,115,116,114,
  105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,34,221,
  4,10,9,86,97,108,117,101,84,121,112,101,18,74,10,7,105,110,116,101,103,101,114,24,
  1,32,1,40,11,50,46,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,
  116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,84,121,112,101,46,73,110,
  116,101,103,101,114,72,0,82,7,105,110,116,101,103,101,114,18,68,10,5,116,117,112,108,
  101,24,2,32,1,40,11,50,44,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,
  105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,84,121,112,101,46,
  84,117,112,108,101,72,0,82,5,116,117,112,108,101,18,76,10,9,105,110,116,95,109,111,
  100,95,110,24,3,32,1,40,11,50,46,46,100,105,115,116,114,105,98,117,116,101,100,95,
  112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,84,121,112,
  101,46,73,110,116,77,111,100,78,72,0,82,7,105,110,116,77,111,100,78,18,81,10,11,
  120,111,114,95,119,114,97,112,112,101,114,24,4,32,1,40,11,50,46,46,100,105,115,116,
  114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,
  86,97,108,117,101,84,121,112,101,46,73,110,116,101,103,101,114,72,0,82,10,120,111,114,
  87,114,97,112,112,101,114,26,35,10,7,73,110,116,101,103,101,114,18,24,10,7,98,105,
  116,115,105,122,101,24,1,32,1,40,5,82,7,98,105,116,115,105,122,101,26,75,10,5,
  84,117,112,108,101,18,66,10,8,101,108,101,109,101,110,116,115,24,1,32,3,40,11,50,
  38,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,
  116,105,111,110,115,46,86,97,108,117,101,84,121,112,101,82,8,101,108,101,109,101,110,116,
  115,26,162,1,10,7,73,110,116,77,111,100,78,18,81,10,12,98,97,115,101,95,105,110,
  116,101,103,101,114,24,1,32,1,40,11,50,46,46,100,105,115,116,114,105,98,117,116,101,
  100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,84,
  121,112,101,46,73,110,116,101,103,101,114,82,11,98,97,115,101,73,110,116,101,103,101,114,
  18,68,10,7,109,111,100,117,108,117,115,24,2,32,1,40,11,50,42,46,100,105,115,116,
  114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,
  86,97,108,117,101,46,73,110,116,101,103,101,114,82,7,109,111,100,117,108,117,115,66,6,
  10,4,116,121,112,101,34,129,4,10,5,86,97,108,117,101,18,70,10,7,105,110,116,101,
  103,101,114,24,1,32,1,40,11,50,42,46,100,105,115,116,114,105,98,117,116,101,100,95,
  112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,46,73,110,
  116,101,103,101,114,72,0,82,7,105,110,116,101,103,101,114,18,64,10,5,116,117,112,108,
  101,24,2,32,1,40,11,50,40,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,
  105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,46,84,117,112,108,
  101,72,0,82,5,116,117,112,108,101,18,72,10,9,105,110,116,95,109,111,100,95,110,24,
  3,32,1,40,11,50,42,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,
  116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,46,73,110,116,101,103,101,
  114,72,0,82,7,105,110,116,77,111,100,78,18,77,10,11,120,111,114,95,119,114,97,112,
  112,101,114,24,4,32,1,40,11,50,42,46,100,105,115,116,114,105,98,117,116,101,100,95,
  112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,46,73,110,
  116,101,103,101,114,72,0,82,10,120,111,114,87,114,97,112,112,101,114,26,130,1,10,7,
  73,110,116,101,103,101,114,18,35,10,12,118,97,108,117,101,95,117,105,110,116,54,52,24,
  1,32,1,40,4,72,0,82,11,118,97,108,117,101,85,105,110,116,54,52,18,73,10,13,
  118,97,108,117,101,95,117,105,110,116,49,50,56,24,2,32,1,40,11,50,34,46,100,105,
  115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,
  115,46,66,108,111,99,107,72,0,82,12,118,97,108,117,101,85,105,110,116,49,50,56,66,
  7,10,5,118,97,108,117,101,26,71,10,5,84,117,112,108,101,18,62,10,8,101,108,101,
  109,101,110,116,115,24,1,32,3,40,11,50,34,46,100,105,115,116,114,105,98,117,116,101,
  100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,82,
  8,101,108,101,109,101,110,116,115,66,7,10,5,118,97,108,117,101,34,179,1,10,13,68,
  112,102,80,97,114,97,109,101,116,101,114,115,18,38,10,15,108,111,103,95,100,111,109,97,
  105,110,95,115,105,122,101,24,1,32,1,40,5,82,13,108,111,103,68,111,109,97,105,110,
  83,105,122,101,18,69,10,10,118,97,108,117,101,95,116,121,112,101,24,3,32,1,40,11,
  50,38,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,
  99,116,105,111,110,115,46,86,97,108,117,101,84,121,112,101,82,9,118,97,108,117,101,84,
  121,112,101,18,45,10,18,115,101,99,117,114,105,116,121,95,112,97,114,97,109,101,116,101,
  114,24,4,32,1,40,1,82,17,115,101,99,117,114,105,116,121,80,97,114,97,109,101,116,
  101,114,74,4,8,2,16,3,34,45,10,5,66,108,111,99,107,18,18,10,4,104,105,103,
  104,24,1,32,1,40,4,82,4,104,105,103,104,18,16,10,3,108,111,119,24,2,32,1,
  40,4,82,3,108,111,119,34,229,1,10,14,67,111,114,114,101,99,116,105,111,110,87,111,
  114,100,18,54,10,4,115,101,101,100,24,1,32,1,40,11,50,34,46,100,105,115,116,114,
  105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,66,
  108,111,99,107,82,4,115,101,101,100,18,33,10,12,99,111,110,116,114,111,108,95,108,101,
  102,116,24,2,32,1,40,8,82,11,99,111,110,116,114,111,108,76,101,102,116,18,35,10,
  13,99,111,110,116,114,111,108,95,114,105,103,104,116,24,3,32,1,40,8,82,12,99,111,
  110,116,114,111,108,82,105,103,104,116,18,77,10,16,118,97,108,117,101,95,99,111,114,114,
  101,99,116,105,111,110,24,5,32,3,40,11,50,34,46,100,105,115,116,114,105,98,117,116,
  101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,
  82,15,118,97,108,117,101,67,111,114,114,101,99,116,105,111,110,74,4,8,4,16,5,34,
  151,2,10,6,68,112,102,75,101,121,18,54,10,4,115,101,101,100,24,1,32,1,40,11,
  50,34,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,
  99,116,105,111,110,115,46,66,108,111,99,107,82,4,115,101,101,100,18,86,10,16,99,111,
  114,114,101,99,116,105,111,110,95,119,111,114,100,115,24,2,32,3,40,11,50,43,46,100,
  105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,
  110,115,46,67,111,114,114,101,99,116,105,111,110,87,111,114,100,82,15,99,111,114,114,101,
  99,116,105,111,110,87,111,114,100,115,18,20,10,5,112,97,114,116,121,24,3,32,1,40,
  5,82,5,112,97,114,116,121,18,97,10,27,108,97,115,116,95,108,101,118,101,108,95,118,
  97,108,117,101,95,99,111,114,114,101,99,116,105,111,110,24,5,32,3,40,11,50,34,46,
  100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,
  111,110,115,46,86,97,108,117,101,82,24,108,97,115,116,76,101,118,101,108,86,97,108,117,
  101,67,111,114,114,101,99,116,105,111,110,74,4,8,4,16,5,34,168,1,10,17,80,97,
  114,116,105,97,108,69,118,97,108,117,97,116,105,111,110,18,58,10,6,112,114,101,102,105,
  120,24,1,32,1,40,11,50,34,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,
  105,110,116,95,102,117,110,99,116,105,111,110,115,46,66,108,111,99,107,82,6,112,114,101,
  102,105,120,18,54,10,4,115,101,101,100,24,2,32,1,40,11,50,34,46,100,105,115,116,
  114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,
  66,108,111,99,107,82,4,115,101,101,100,18,31,10,11,99,111,110,116,114,111,108,95,98,
  105,116,24,3,32,1,40,8,82,10,99,111,110,116,114,111,108,66,105,116,34,237,2,10,
  17,69,118,97,108,117,97,116,105,111,110,67,111,110,116,101,120,116,18,74,10,10,112,97,
  114,97,109,101,116,101,114,115,24,1,32,3,40,11,50,42,46,100,105,115,116,114,105,98,
  117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,68,112,102,
  80,97,114,97,109,101,116,101,114,115,82,10,112,97,114,97,109,101,116,101,114,115,18,53,
  10,3,107,101,121,24,2,32,1,40,11,50,35,46,100,105,115,116,114,105,98,117,116,101,
  100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,68,112,102,75,101,121,
  82,3,107,101,121,18,56,10,24,112,114,101,118,105,111,117,115,95,104,105,101,114,97,114,
  99,104,121,95,108,101,118,101,108,24,3,32,1,40,5,82,22,112,114,101,118,105,111,117,
  115,72,105,101,114,97,114,99,104,121,76,101,118,101,108,18,95,10,19,112,97,114,116,105,
  97,108,95,101,118,97,108,117,97,116,105,111,110,115,24,4,32,3,40,11,50,46,46,100,
  105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,
  110,115,46,80,97,114,116,105,97,108,69,118,97,108,117,97,116,105,111,110,82,18,112,97,
  114,116,105,97,108,69,118,97,108,117,97,116,105,111,110,115,18,58,10,25,112,97,114,116,
  105,97,108,95,101,118,97,108,117,97,116,105,111,110,115,95,108,101,118,101,108,24,5,32,
  1,40,5,82,23,112,97,114,116,105,97,108,69,118,97,108,117,97,116,105,111,110,115,76,
  101,118,101,108,66,3,248,1,1,98,6,112,114,111,116,111,51,10,148,2,10,41,100,99,
  102,47,100,105,115,116,114,105,98,117,116,101,100,95,99,111,109,112,97,114,105,115,111,110,
  95,102,117,110,99,116,105,111,110,46,112,114,111,116,111,18,27,100,105,115,116,114,105,98,
  117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,26,36,100,112,
  102,47,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,
  116,105,111,110,46,112,114,111,116,111,34,91,10,13,68,99,102,80,97,114,97,109,101,116,
  101,114,115,18,74,10,10,112,97,114,97,109,101,116,101,114,115,24,1,32,1,40,11,50,
  42,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,
  116,105,111,110,115,46,68,112,102,80,97,114,97,109,101,116,101,114,115,82,10,112,97,114,
  97,109,101,116,101,114,115,34,63,10,6,68,99,102,75,101,121,18,53,10,3,107,101,121,
  24,1,32,1,40,11,50,35,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,
  110,116,95,102,117,110,99,116,105,111,110,115,46,68,112,102,75,101,121,82,3,107,101,121,
  98,6,112,114,111,116,111,51,10,129,5,10,49,100,99,102,47,102,115,115,95,103,97,116,
  101,115,47,109,117,108,116,105,112,108,101,95,105,110,116,101,114,118,97,108,95,99,111,110,
  116,97,105,110,109,101,110,116,46,112,114,111,116,111,18,37,100,105,115,116,114,105,98,117,
  116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,102,115,115,95,
  103,97,116,101,115,26,41,100,99,102,47,100,105,115,116,114,105,98,117,116,101,100,95,99,
  111,109,112,97,114,105,115,111,110,95,102,117,110,99,116,105,111,110,46,112,114,111,116,111,
  26,36,100,112,102,47,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,
  102,117,110,99,116,105,111,110,46,112,114,111,116,111,34,164,1,10,8,73,110,116,101,114,
  118,97,108,18,75,10,11,108,111,119,101,114,95,98,111,117,110,100,24,1,32,1,40,11,
  50,42,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,
  99,116,105,111,110,115,46,86,97,108,117,101,46,73,110,116,101,103,101,114,82,10,108,111,
  119,101,114,66,111,117,110,100,18,75,10,11,117,112,112,101,114,95,98,111,117,110,100,24,
  2,32,1,40,11,50,42,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,
  116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,46,73,110,116,101,103,101,
  114,82,10,117,112,112,101,114,66,111,117,110,100,34,132,1,10,13,77,105,99,80,97,114,
  97,109,101,116,101,114,115,18,36,10,14,108,111,103,95,103,114,111,117,112,95,115,105,122,
  101,24,1,32,1,40,5,82,12,108,111,103,71,114,111,117,112,83,105,122,101,18,77,10,
  9,105,110,116,101,114,118,97,108,115,24,2,32,3,40,11,50,47,46,100,105,115,116,114,
  105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,102,
  115,115,95,103,97,116,101,115,46,73,110,116,101,114,118,97,108,82,9,105,110,116,101,114,
  118,97,108,115,34,157,1,10,6,77,105,99,75,101,121,18,59,10,6,100,99,102,107,101,
  121,24,1,32,1,40,11,50,35,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,
  105,110,116,95,102,117,110,99,116,105,111,110,115,46,68,99,102,75,101,121,82,6,100,99,
  102,107,101,121,18,86,10,17,111,117,116,112,117,116,95,109,97,115,107,95,115,104,97,114,
  101,24,2,32,3,40,11,50,42,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,
  105,110,116,95,102,117,110,99,116,105,111,110,115,46,86,97,108,117,101,46,73,110,116,101,
  103,101,114,82,15,111,117,116,112,117,116,77,97,115,107,83,104,97,114,101,98,6,112,114,
  111,116,111,51,10,178,2,10,36,112,105,114,47,104,97,115,104,105,110,103,47,104,97,115,
  104,95,102,97,109,105,108,121,95,99,111,110,102,105,103,46,112,114,111,116,111,18,27,100,
  105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,
  110,115,34,196,1,10,16,72,97,115,104,70,97,109,105,108,121,67,111,110,102,105,103,18,
  89,10,11,104,97,115,104,95,102,97,109,105,108,121,24,1,32,1,40,14,50,56,46,100,
  105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,
  110,115,46,72,97,115,104,70,97,109,105,108,121,67,111,110,102,105,103,46,72,97,115,104,
  70,97,109,105,108,121,82,10,104,97,115,104,70,97,109,105,108,121,18,18,10,4,115,101,
  101,100,24,2,32,1,40,12,82,4,115,101,101,100,34,65,10,10,72,97,115,104,70,97,
  109,105,108,121,18,27,10,23,72,65,83,72,95,70,65,77,73,76,89,95,85,78,83,80,
  69,67,73,70,73,69,68,16,0,18,22,10,18,72,65,83,72,95,70,65,77,73,76,89,
  95,83,72,65,50,53,54,16,1,66,30,10,26,99,111,109,46,103,111,111,103,108,101,46,
  100,112,102,46,112,105,114,46,104,97,115,104,105,110,103,80,1,98,6,112,114,111,116,111,
  51,10,202,31,10,39,112,105,114,47,112,114,105,118,97,116,101,95,105,110,102,111,114,109,
  97,116,105,111,110,95,114,101,116,114,105,101,118,97,108,46,112,114,111,116,111,18,27,100,
  105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,
  110,115,26,36,100,112,102,47,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,
  116,95,102,117,110,99,116,105,111,110,46,112,114,111,116,111,26,36,112,105,114,47,104,97,
  115,104,105,110,103,47,104,97,115,104,95,102,97,109,105,108,121,95,99,111,110,102,105,103,
  46,112,114,111,116,111,34,164,3,10,9,80,105,114,67,111,110,102,105,103,18,97,10,20,
  100,101,110,115,101,95,100,112,102,95,112,105,114,95,99,111,110,102,105,103,24,1,32,1,
  40,11,50,46,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,
  117,110,99,116,105,111,110,115,46,68,101,110,115,101,68,112,102,80,105,114,67,111,110,102,
  105,103,72,0,82,17,100,101,110,115,101,68,112,102,80,105,114,67,111,110,102,105,103,18,
  141,1,10,36,99,117,99,107,111,111,95,104,97,115,104,105,110,103,95,115,112,97,114,115,
  101,95,100,112,102,95,112,105,114,95,99,111,110,102,105,103,24,2,32,1,40,11,50,60,
  46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,
  105,111,110,115,46,67,117,99,107,111,111,72,97,115,104,105,110,103,83,112,97,114,115,101,
  68,112,102,80,105,114,67,111,110,102,105,103,72,0,82,31,99,117,99,107,111,111,72,97,
  115,104,105,110,103,83,112,97,114,115,101,68,112,102,80,105,114,67,111,110,102,105,103,18,
  141,1,10,36,115,105,109,112,108,101,95,104,97,115,104,105,110,103,95,115,112,97,114,115,
  101,95,100,112,102,95,112,105,114,95,99,111,110,102,105,103,24,3,32,1,40,11,50,60,
  46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,
  105,111,110,115,46,83,105,109,112,108,101,72,97,115,104,105,110,103,83,112,97,114,115,101,
  68,112,102,80,105,114,67,111,110,102,105,103,72,0,82,31,115,105,109,112,108,101,72,97,
  115,104,105,110,103,83,112,97,114,115,101,68,112,102,80,105,114,67,111,110,102,105,103,66,
  20,10,18,119,114,97,112,112,101,100,95,112,105,114,95,99,111,110,102,105,103,34,177,4,
  10,21,80,105,114,82,101,113,117,101,115,116,67,108,105,101,110,116,83,116,97,116,101,18,
  135,1,10,34,100,101,110,115,101,95,100,112,102,95,112,105,114,95,114,101,113,117,101,115,
  116,95,99,108,105,101,110,116,95,115,116,97,116,101,24,1,32,1,40,11,50,58,46,100,
  105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,
  110,115,46,68,101,110,115,101,68,112,102,80,105,114,82,101,113,117,101,115,116,67,108,105,
  101,110,116,83,116,97,116,101,72,0,82,29,100,101,110,115,101,68,112,102,80,105,114,82,
  101,113,117,101,115,116,67,108,105,101,110,116,83,116,97,116,101,18,179,1,10,50,99,117,
  99,107,111,111,95,104,97,115,104,105,110,103,95,115,112,97,114,115,101,95,100,112,102,95,
  112,105,114,95,114,101,113,117,101,115,116,95,99,108,105,101,110,116,95,115,116,97,116,101,
  24,2,32,1,40,11,50,72,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,
  110,116,95,102,117,110,99,116,105,111,110,115,46,67,117,99,107,111,111,72,97,115,104,105,
  110,103,83,112,97,114,115,101,68,112,102,80,105,114,82,101,113,117,101,115,116,67,108,105,
  101,110,116,83,116,97,116,101,72,0,82,43,99,117,99,107,111,111,72,97,115,104,105,110,
  103,83,112,97,114,115,101,68,112,102,80,105,114,82,101,113,117,101,115,116,67,108,105,101,
  110,116,83,116,97,116,101,18,179,1,10,50,115,105,109,112,108,101,95,104,97,115,104,105,
  110,103,95,115,112,97,114,115,101,95,100,112,102,95,112,105,114,95,114,101,113,117,101,115,
  116,95,99,108,105,101,110,116,95,115,116,97,116,101,24,3,32,1,40,11,50,72,46,100,
  105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,
  110,115,46,83,105,109,112,108,101,72,97,115,104,105,110,103,83,112,97,114,115,101,68,112,
  102,80,105,114,82,101,113,117,101,115,116,67,108,105,101,110,116,83,116,97,116,101,72,0,
  82,43,115,105,109,112,108,101,72,97,115,104,105,110,103,83,112,97,114,115,101,68,112,102,
  80,105,114,82,101,113,117,101,115,116,67,108,105,101,110,116,83,116,97,116,101,66,34,10,
  32,119,114,97,112,112,101,100,95,112,105,114,95,114,101,113,117,101,115,116,95,99,108,105,
  101,110,116,95,115,116,97,116,101,34,221,2,10,21,80,105,114,83,101,114,118,101,114,80,
  117,98,108,105,99,80,97,114,97,109,115,18,142,1,10,43,99,117,99,107,111,111,95,104,
  97,115,104,105,110,103,95,115,112,97,114,115,101,95,100,112,102,95,112,105,114,95,115,101,
  114,118,101,114,95,112,97,114,97,109,115,24,1,32,1,40,11,50,48,46,100,105,115,116,
  114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,
  67,117,99,107,111,111,72,97,115,104,105,110,103,80,97,114,97,109,115,72,0,82,37,99,
  117,99,107,111,111,72,97,115,104,105,110,103,83,112,97,114,115,101,68,112,102,80,105,114,
  83,101,114,118,101,114,80,97,114,97,109,115,18,142,1,10,43,115,105,109,112,108,101,95,
  104,97,115,104,105,110,103,95,115,112,97,114,115,101,95,100,112,102,95,112,105,114,95,115,
  101,114,118,101,114,95,112,97,114,97,109,115,24,2,32,1,40,11,50,48,46,100,105,115,
  116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,
  46,83,105,109,112,108,101,72,97,115,104,105,110,103,80,97,114,97,109,115,72,0,82,37,
  115,105,109,112,108,101,72,97,115,104,105,110,103,83,112,97,114,115,101,68,112,102,80,105,
  114,83,101,114,118,101,114,80,97,114,97,109,115,66,34,10,32,119,114,97,112,112,101,100,
  95,112,105,114,95,115,101,114,118,101,114,95,112,117,98,108,105,99,95,112,97,114,97,109,
  115,34,121,10,10,80,105,114,82,101,113,117,101,115,116,18,84,10,15,100,112,102,95,112,
  105,114,95,114,101,113,117,101,115,116,24,1,32,1,40,11,50,42,46,100,105,115,116,114,
  105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,68,
  112,102,80,105,114,82,101,113,117,101,115,116,72,0,82,13,100,112,102,80,105,114,82,101,
  113,117,101,115,116,66,21,10,19,119,114,97,112,112,101,100,95,112,105,114,95,114,101,113,
  117,101,115,116,34,126,10,11,80,105,114,82,101,115,112,111,110,115,101,18,87,10,16,100,
  112,102,95,112,105,114,95,114,101,115,112,111,110,115,101,24,1,32,1,40,11,50,43,46,
  100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,
  111,110,115,46,68,112,102,80,105,114,82,101,115,112,111,110,115,101,72,0,82,14,100,112,
  102,80,105,114,82,101,115,112,111,110,115,101,66,22,10,20,119,114,97,112,112,101,100,95,
  112,105,114,95,114,101,115,112,111,110,115,101,34,54,10,17,68,101,110,115,101,68,112,102,
  80,105,114,67,111,110,102,105,103,18,33,10,12,110,117,109,95,101,108,101,109,101,110,116,
  115,24,1,32,1,40,3,82,11,110,117,109,69,108,101,109,101,110,116,115,34,159,1,10,
  31,67,117,99,107,111,111,72,97,115,104,105,110,103,83,112,97,114,115,101,68,112,102,80,
  105,114,67,111,110,102,105,103,18,89,10,11,104,97,115,104,95,102,97,109,105,108,121,24,
  1,32,1,40,14,50,56,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,
  116,95,102,117,110,99,116,105,111,110,115,46,72,97,115,104,70,97,109,105,108,121,67,111,
  110,102,105,103,46,72,97,115,104,70,97,109,105,108,121,82,10,104,97,115,104,70,97,109,
  105,108,121,18,33,10,12,110,117,109,95,101,108,101,109,101,110,116,115,24,2,32,1,40,
  3,82,11,110,117,109,69,108,101,109,101,110,116,115,34,157,1,10,31,83,105,109,112,108,
  101,72,97,115,104,105,110,103,83,112,97,114,115,101,68,112,102,80,105,114,67,111,110,102,
  105,103,18,89,10,11,104,97,115,104,95,102,97,109,105,108,121,24,1,32,1,40,14,50,
  56,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,
  116,105,111,110,115,46,72,97,115,104,70,97,109,105,108,121,67,111,110,102,105,103,46,72,
  97,115,104,70,97,109,105,108,121,82,10,104,97,115,104,70,97,109,105,108,121,18,31,10,
  11,110,117,109,95,98,117,99,107,101,116,115,24,2,32,1,40,3,82,10,110,117,109,66,
  117,99,107,101,116,115,34,193,1,10,19,67,117,99,107,111,111,72,97,115,104,105,110,103,
  80,97,114,97,109,115,18,91,10,18,104,97,115,104,95,102,97,109,105,108,121,95,99,111,
  110,102,105,103,24,1,32,1,40,11,50,45,46,100,105,115,116,114,105,98,117,116,101,100,
  95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,72,97,115,104,70,97,109,
  105,108,121,67,111,110,102,105,103,82,16,104,97,115,104,70,97,109,105,108,121,67,111,110,
  102,105,103,18,44,10,18,110,117,109,95,104,97,115,104,95,102,117,110,99,116,105,111,110,
  115,24,2,32,1,40,5,82,16,110,117,109,72,97,115,104,70,117,110,99,116,105,111,110,
  115,18,31,10,11,110,117,109,95,98,117,99,107,101,116,115,24,3,32,1,40,3,82,10,
  110,117,109,66,117,99,107,101,116,115,34,147,1,10,19,83,105,109,112,108,101,72,97,115,
  104,105,110,103,80,97,114,97,109,115,18,91,10,18,104,97,115,104,95,102,97,109,105,108,
  121,95,99,111,110,102,105,103,24,1,32,1,40,11,50,45,46,100,105,115,116,114,105,98,
  117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,72,97,115,
  104,70,97,109,105,108,121,67,111,110,102,105,103,82,16,104,97,115,104,70,97,109,105,108,
  121,67,111,110,102,105,103,18,31,10,11,110,117,109,95,98,117,99,107,101,116,115,24,2,
  32,1,40,3,82,10,110,117,109,66,117,99,107,101,116,115,34,69,10,23,72,97,115,104,
  101,100,80,105,114,68,97,116,97,98,97,115,101,66,117,99,107,101,116,18,18,10,4,107,
  101,121,115,24,1,32,3,40,12,82,4,107,101,121,115,18,22,10,6,118,97,108,117,101,
  115,24,2,32,3,40,12,82,6,118,97,108,117,101,115,34,172,7,10,13,68,112,102,80,
  105,114,82,101,113,117,101,115,116,18,94,10,13,112,108,97,105,110,95,114,101,113,117,101,
  115,116,24,1,32,1,40,11,50,55,46,100,105,115,116,114,105,98,117,116,101,100,95,112,
  111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,68,112,102,80,105,114,82,101,113,
  117,101,115,116,46,80,108,97,105,110,82,101,113,117,101,115,116,72,0,82,12,112,108,97,
  105,110,82,101,113,117,101,115,116,18,97,10,14,108,101,97,100,101,114,95,114,101,113,117,
  101,115,116,24,2,32,1,40,11,50,56,46,100,105,115,116,114,105,98,117,116,101,100,95,
  112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,68,112,102,80,105,114,82,101,
  113,117,101,115,116,46,76,101,97,100,101,114,82,101,113,117,101,115,116,72,0,82,13,108,
  101,97,100,101,114,82,101,113,117,101,115,116,18,125,10,24,101,110,99,114,121,112,116,101,
  100,95,104,101,108,112,101,114,95,114,101,113,117,101,115,116,24,3,32,1,40,11,50,65,
  46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,
  105,111,110,115,46,68,112,102,80,105,114,82,101,113,117,101,115,116,46,69,110,99,114,121,
  112,116,101,100,72,101,108,112,101,114,82,101,113,117,101,115,116,72,0,82,22,101,110,99,
  114,121,112,116,101,100,72,101,108,112,101,114,82,101,113,117,101,115,116,26,119,10,12,80,
  108,97,105,110,82,101,113,117,101,115,116,18,60,10,7,100,112,102,95,107,101,121,24,1,
  32,3,40,11,50,35,46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,
  95,102,117,110,99,116,105,111,110,115,46,68,112,102,75,101,121,82,6,100,112,102,75,101,
  121,18,41,10,16,115,101,101,100,95,102,105,110,103,101,114,112,114,105,110,116,24,2,32,
  1,40,7,82,15,115,101,101,100,70,105,110,103,101,114,112,114,105,110,116,26,234,1,10,
  13,76,101,97,100,101,114,82,101,113,117,101,115,116,18,92,10,13,112,108,97,105,110,95,
  114,101,113,117,101,115,116,24,1,32,1,40,11,50,55,46,100,105,115,116,114,105,98,117,
  116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,68,112,102,80,
  105,114,82,101,113,117,101,115,116,46,80,108,97,105,110,82,101,113,117,101,115,116,82,12,
  112,108,97,105,110,82,101,113,117,101,115,116,18,123,10,24,101,110,99,114,121,112,116,101,
  100,95,104,101,108,112,101,114,95,114,101,113,117,101,115,116,24,2,32,1,40,11,50,65,
  46,100,105,115,116,114,105,98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,
  105,111,110,115,46,68,112,102,80,105,114,82,101,113,117,101,115,116,46,69,110,99,114,121,
  112,116,101,100,72,101,108,112,101,114,82,101,113,117,101,115,116,82,22,101,110,99,114,121,
  112,116,101,100,72,101,108,112,101,114,82,101,113,117,101,115,116,26,69,10,22,69,110,99,
  114,121,112,116,101,100,72,101,108,112,101,114,82,101,113,117,101,115,116,18,43,10,17,101,
  110,99,114,121,112,116,101,100,95,114,101,113,117,101,115,116,24,1,32,1,40,12,82,16,
  101,110,99,114,121,112,116,101,100,82,101,113,117,101,115,116,26,152,1,10,13,72,101,108,
  112,101,114,82,101,113,117,101,115,116,18,92,10,13,112,108,97,105,110,95,114,101,113,117,
  101,115,116,24,1,32,1,40,11,50,55,46,100,105,115,116,114,105,98,117,116,101,100,95,
  112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,68,112,102,80,105,114,82,101,
  113,117,101,115,116,46,80,108,97,105,110,82,101,113,117,101,115,116,82,12,112,108,97,105,
  110,82,101,113,117,101,115,116,18,41,10,17,111,110,101,95,116,105,109,101,95,112,97,100,
  95,115,101,101,100,24,2,32,1,40,12,82,14,111,110,101,84,105,109,101,80,97,100,83,
  101,101,100,66,17,10,15,119,114,97,112,112,101,100,95,114,101,113,117,101,115,116,34,74,
  10,29,68,101,110,115,101,68,112,102,80,105,114,82,101,113,117,101,115,116,67,108,105,101,
  110,116,83,116,97,116,101,18,41,10,17,111,110,101,95,116,105,109,101,95,112,97,100,95,
  115,101,101,100,24,1,32,1,40,12,82,14,111,110,101,84,105,109,101,80,97,100,83,101,
  101,100,34,125,10,43,67,117,99,107,111,111,72,97,115,104,105,110,103,83,112,97,114,115,
  101,68,112,102,80,105,114,82,101,113,117,101,115,116,67,108,105,101,110,116,83,116,97,116,
  101,18,41,10,17,111,110,101,95,116,105,109,101,95,112,97,100,95,115,101,101,100,24,1,
  32,1,40,12,82,14,111,110,101,84,105,109,101,80,97,100,83,101,101,100,18,35,10,13,
  113,117,101,114,121,95,115,116,114,105,110,103,115,24,2,32,3,40,12,82,12,113,117,101,
  114,121,83,116,114,105,110,103,115,34,125,10,43,83,105,109,112,108,101,72,97,115,104,105,
  110,103,83,112,97,114,115,101,68,112,102,80,105,114,82,101,113,117,101,115,116,67,108,105,
  101,110,116,83,116,97,116,101,18,41,10,17,111,110,101,95,116,105,109,101,95,112,97,100,
  95,115,101,101,100,24,1,32,1,40,12,82,14,111,110,101,84,105,109,101,80,97,100,83,
  101,101,100,18,35,10,13,113,117,101,114,121,95,115,116,114,105,110,103,115,24,2,32,3,
  40,12,82,12,113,117,101,114,121,83,116,114,105,110,103,115,34,57,10,14,68,112,102,80,
  105,114,82,101,115,112,111,110,115,101,18,39,10,15,109,97,115,107,101,100,95,114,101,115,
  112,111,110,115,101,24,1,32,3,40,12,82,14,109,97,115,107,101,100,82,101,115,112,111,
  110,115,101,34,141,1,10,17,67,97,110,111,110,105,99,97,108,80,105,114,69,114,114,111,
  114,18,71,10,4,99,111,100,101,24,1,32,1,40,14,50,51,46,100,105,115,116,114,105,
  98,117,116,101,100,95,112,111,105,110,116,95,102,117,110,99,116,105,111,110,115,46,67,97,
  110,111,110,105,99,97,108,80,105,114,69,114,114,111,114,46,67,111,100,101,82,4,99,111,
  100,101,34,47,10,4,67,111,100,101,18,11,10,7,85,78,75,78,79,87,78,16,0,18,
  26,10,22,77,65,88,95,86,65,76,85,69,95,83,73,90,69,95,73,83,95,90,69,82,
  79,16,1,66,25,10,18,99,111,109,46,103,111,111,103,108,101,46,100,112,102,46,112,105,
  114,80,1,248,1,1,98,6,112,114,111,116,111,51,
};
