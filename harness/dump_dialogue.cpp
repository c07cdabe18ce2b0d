// Stand-in for the export dialogue: writes down the particles a generator hands over (C24).
#include "particles.hpp"
#include "../generator/generator_src/generator_dialogue.hpp"
#include <cstdio>

void GeneratorDialogue::generatorDialogue(const std::filesystem::path&, const Particles& particles, const std::vector<std::string>&) {
    FILE* f = fopen("handed", "w");
    for (const auto& p : particles) fprintf(f, "%d %.17g %d %.17g %.17g %.17g\n", p.id, p.density, p.fluidType, p.velocity.x(), p.velocity.y(), p.velocity.z());
    fclose(f);
}
